//! Simulated watcher: replaces the platform watcher (the only change to notify 8.2.1).
use crate::{Config, Error, Event, EventHandler, RecursiveMode, Result, Watcher, WatcherKind};
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    sync::{Arc, Mutex},
};

#[derive(Default)]
pub struct Shared {
    /// Watched paths and whether recursively.
    pub watched: Mutex<BTreeMap<PathBuf, bool>>,
    /// Taken while an event is delivered, `None` once the watcher is dropped.
    pub handler: Mutex<Option<Box<dyn EventHandler>>>,
    pub watch_calls: Mutex<Vec<(char, PathBuf)>>,
}
/// The next watch or unwatch call fails if this says so.
pub static FAIL: Mutex<Option<fn() -> bool>> = Mutex::new(None);
static ALL: Mutex<Vec<Arc<Shared>>> = Mutex::new(Vec::new());
pub fn watchers() -> Vec<Arc<Shared>> {
    ALL.lock().unwrap().clone()
}
impl Shared {
    /// Deliver an event as the watcher's thread would. False if the watcher is gone.
    pub fn deliver(&self, e: Result<Event>) -> bool {
        match self.handler.lock().unwrap().as_mut() {
            Some(h) => {
                h.handle_event(e);
                true
            }
            None => false,
        }
    }
}
pub struct SimWatcher(Arc<Shared>);
impl std::fmt::Debug for SimWatcher {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SimWatcher")
    }
}
fn fails() -> bool {
    let f = *FAIL.lock().unwrap();
    f.is_some_and(|f| f())
}
impl Watcher for SimWatcher {
    fn new<F: EventHandler>(event_handler: F, _config: Config) -> Result<Self> {
        let s = Arc::new(Shared::default());
        *s.handler.lock().unwrap() = Some(Box::new(event_handler));
        ALL.lock().unwrap().push(s.clone());
        Ok(SimWatcher(s))
    }
    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()> {
        self.0.watch_calls.lock().unwrap().push(('+', path.to_path_buf()));
        if fails() {
            return Err(Error::generic("inotify limit"));
        }
        self.0.watched.lock().unwrap().insert(path.to_path_buf(), mode == RecursiveMode::Recursive);
        Ok(())
    }
    fn unwatch(&mut self, path: &Path) -> Result<()> {
        self.0.watch_calls.lock().unwrap().push(('-', path.to_path_buf()));
        if fails() {
            return Err(Error::generic("inotify failure"));
        }
        match self.0.watched.lock().unwrap().remove(path) {
            Some(_) => Ok(()),
            None => Err(Error::watch_not_found()),
        }
    }
    fn kind() -> WatcherKind {
        WatcherKind::NullWatcher
    }
}
impl Drop for SimWatcher {
    fn drop(&mut self) {
        // The real watchers join their thread here: no callback runs afterwards.
        *self.0.handler.lock().unwrap() = None;
        self.0.watched.lock().unwrap().clear();
    }
}
