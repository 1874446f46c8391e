//! Simulated terminal: replaces the operating system below `terminal` and `event` (the only change to crossterm 0.29.0).
use crate::event::Event;
use std::{io, sync::OnceLock, time::Duration};

pub trait Device: Send + Sync {
    fn read(&self) -> io::Result<Event>;
    fn poll(&self, timeout: Duration) -> io::Result<bool>;
    fn set_raw(&self, on: bool) -> io::Result<()>;
    fn raw(&self) -> bool;
    fn size(&self) -> io::Result<(u16, u16)>;
}
static DEVICE: OnceLock<&'static dyn Device> = OnceLock::new();
pub fn install(d: &'static dyn Device) {
    let _ = DEVICE.set(d);
}
pub fn device() -> &'static dyn Device {
    *DEVICE.get().expect("no simulated terminal")
}
