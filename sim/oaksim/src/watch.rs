//! V04: the file watcher on a simulated notification source.
use notify::{
    Event, EventKind,
    event::{AccessKind, AccessMode, CreateKind, DataChange, Flag, MetadataKind, ModifyKind, RemoveKind, RenameMode},
};
use oak_vfs::{DiskWatcher, VfsEvent, VfsWatcher};
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, check, ev, fault, json, sched};
use std::{
    collections::BTreeSet,
    path::PathBuf,
    sync::{Arc, Mutex},
};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Watch(usize),
    Unwatch(usize),
    UnwatchAll,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    ops: Vec<Op>,
    /// (kind, paths, attributes)
    events: Vec<(usize, Vec<usize>, u32)>,
    slow: Vec<usize>,
}
const KINDS: [EventKind; 32] = [
    EventKind::Modify(ModifyKind::Data(DataChange::Content)),
    EventKind::Modify(ModifyKind::Any),
    EventKind::Modify(ModifyKind::Data(DataChange::Any)),
    EventKind::Modify(ModifyKind::Metadata(MetadataKind::WriteTime)),
    EventKind::Create(CreateKind::File),
    EventKind::Create(CreateKind::Folder),
    EventKind::Create(CreateKind::Any),
    EventKind::Remove(RemoveKind::File),
    EventKind::Remove(RemoveKind::Folder),
    EventKind::Remove(RemoveKind::Any),
    EventKind::Modify(ModifyKind::Name(RenameMode::Both)),
    EventKind::Access(AccessKind::Any),
    EventKind::Any,
    EventKind::Other,
    EventKind::Modify(ModifyKind::Data(DataChange::Size)),
    EventKind::Modify(ModifyKind::Data(DataChange::Other)),
    EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any)),
    EventKind::Modify(ModifyKind::Metadata(MetadataKind::AccessTime)),
    EventKind::Modify(ModifyKind::Metadata(MetadataKind::Permissions)),
    EventKind::Modify(ModifyKind::Metadata(MetadataKind::Ownership)),
    EventKind::Modify(ModifyKind::Metadata(MetadataKind::Extended)),
    EventKind::Modify(ModifyKind::Metadata(MetadataKind::Other)),
    EventKind::Modify(ModifyKind::Name(RenameMode::From)),
    EventKind::Modify(ModifyKind::Name(RenameMode::To)),
    EventKind::Modify(ModifyKind::Name(RenameMode::Any)),
    EventKind::Modify(ModifyKind::Name(RenameMode::Other)),
    EventKind::Modify(ModifyKind::Other),
    EventKind::Create(CreateKind::Other),
    EventKind::Remove(RemoveKind::Other),
    EventKind::Access(AccessKind::Read),
    EventKind::Access(AccessKind::Open(AccessMode::Write)),
    EventKind::Access(AccessKind::Close(AccessMode::Write)),
];
const PATHS: [&str; 9] = ["/w/a.rs", "/w/d é/b", "/w/d", "/w/d/e/f.rs", "/w", "/w/A.rs", "rel/p", "/w/d é", "/w/.git/x~"];
/// A path of an event; the last one is no text.
fn epath(p: usize) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    match PATHS.get(p % (PATHS.len() + 1)) {
        Some(p) => PathBuf::from(p),
        None => PathBuf::from(std::ffi::OsStr::from_bytes(b"/w/\xff.rs")),
    }
}
fn make(r: &mut Rng, _: bool) -> Value {
    let np = r.range(1, 4);
    let mut some: Vec<usize> = (0..=PATHS.len()).collect();
    r.shuffle(&mut some);
    let c = Case {
        ops: (0..r.below(9))
            .map(|_| match r.below(8) {
                0..=3 => Op::Watch(some[r.below(np) as usize] % PATHS.len()),
                4..=5 => Op::Unwatch(some[r.below(np) as usize] % PATHS.len()),
                _ => Op::UnwatchAll,
            })
            .collect(),
        events: (0..r.below(12)).map(|_| (r.below(KINDS.len() as u64) as usize, (0..*r.pick(&[0u64, 1, 1, 1, 1, 2, 2, 3, 20])).map(|_| some[r.below(np) as usize]).collect(), if r.chance(600) { 0 } else { r.below(32) as u32 })).collect(),
        slow: (0..r.below(3)).map(|_| r.below(9) as usize).collect(),
    };
    let f = [(Fault::EventErr, 200), (Fault::EventDup, 200), (Fault::EventDelay, 300), (Fault::AcquireErr, 200)];
    json!({"cfg": simrt::make_cfg(r, true, &f), "w": c})
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    let got: Arc<Mutex<Vec<(char, String)>>> = Default::default();
    let (g2, slow) = (got.clone(), c.slow.clone());
    *notify::sim::FAIL.lock().unwrap() = Some(|| fault(Fault::AcquireErr));
    let mut dw = DiskWatcher::new(move |e| {
        let e = match e {
            VfsEvent::Changed(u) => ('c', u),
            VfsEvent::Created(u) => ('+', u),
            VfsEvent::Removed(u) => ('-', u),
        };
        let n = {
            let mut g = g2.lock().unwrap();
            g.push(e);
            g.len()
        };
        if slow.contains(&n) {
            sched::sleep_ns(50_000_000)
        }
    })
    .unwrap_or_else(|e| simrt::violation("no watcher", &e.to_string()));
    let Some(sh) = notify::sim::watchers().last().cloned()
    else { simrt::harness_error("no watcher was created") };
    let sh2 = sh.clone();
    let events = c.events.clone();
    // The notification source is one thread, as in the real watcher.
    let source = simrt::spawn(move || {
        let mut want: Vec<(char, String, bool)> = vec![];
        let mut n = 0;
        for (k, ps, attrs) in events {
            let kind = KINDS[k % KINDS.len()];
            let mut e = Event::new(kind);
            for p in &ps {
                e = e.add_path(epath(*p))
            }
            if attrs & 1 > 0 {
                e = e.set_flag(Flag::Rescan)
            }
            if attrs & 2 > 0 {
                e = e.set_tracker((attrs >> 4) as usize)
            }
            if attrs & 4 > 0 {
                e = e.set_info("info")
            }
            if attrs & 8 > 0 {
                e = e.set_process_id(attrs)
            }
            if fault(Fault::EventDelay) {
                sched::sleep_ns(10_000_000)
            }
            if fault(Fault::EventErr) {
                ev!("event source reports an error");
                sh2.deliver(Err(match n {
                    0 => notify::Error::generic("queue overflow"),
                    1 => notify::Error::path_not_found().add_path(epath(0)),
                    2 => notify::Error::io(std::io::Error::from_raw_os_error(5)),
                    _ => notify::Error::new(notify::ErrorKind::MaxFilesWatch),
                }));
                n = (n + 1) % 4;
            }
            let times = 1 + fault(Fault::EventDup) as usize;
            for _ in 0..times {
                for p in &ps {
                    let rename = matches!(kind, EventKind::Modify(ModifyKind::Name(_)));
                    let c = match kind {
                        EventKind::Modify(_) => 'c',
                        EventKind::Create(_) => '+',
                        EventKind::Remove(_) => '-',
                        _ => continue,
                    };
                    want.push((c, epath(*p).to_string_lossy().into_owned(), rename))
                }
                ev!("event {e:?}");
                sh2.deliver(Ok(e.clone()));
            }
        }
        want
    });
    // Meanwhile the client changes what is watched.
    let mut model: BTreeSet<PathBuf> = BTreeSet::new();
    let snapshot = |sh: &notify::sim::Shared| sh.watched.lock().unwrap().clone();
    for op in &c.ops {
        let before = snapshot(&sh);
        let calls = sh.watch_calls.lock().unwrap().len();
        let r = match op {
            Op::Watch(p) => dw.watch(PATHS[p % PATHS.len()]),
            Op::Unwatch(p) => dw.unwatch(PATHS[p % PATHS.len()]),
            Op::UnwatchAll => dw.unwatch_all(),
        };
        let after = snapshot(&sh);
        let tried = sh.watch_calls.lock().unwrap()[calls..].to_vec();
        ev!("{op:?} -> {} watched {}", r.is_ok(), after.len());
        match op {
            Op::Watch(p) => {
                let p = PathBuf::from(PATHS[p % PATHS.len()]);
                if r.is_ok() {
                    check!(after.get(&p) == Some(&true), "not watched", "{p:?} after a successful watch: {after:?}");
                    model.insert(p);
                }
                else {
                    check!(!tried.is_empty(), "refused without trying", "watch {p:?}");
                }
            }
            Op::Unwatch(p) => {
                let p = PathBuf::from(PATHS[p % PATHS.len()]);
                if r.is_ok() {
                    check!(!after.contains_key(&p), "still watched", "{p:?}");
                    check!(before.contains_key(&p), "unwatched something not watched", "{p:?} reported success");
                    model.remove(&p);
                }
                else {
                    check!(before.get(&p) == after.get(&p), "failed unwatch has an effect", "{p:?}");
                    // A failed removal of a watched path needs a cause.
                    check!(!before.contains_key(&p) || simrt::decide::rate(Fault::AcquireErr) > 0, "unwatch refused", "{p:?}");
                }
            }
            Op::UnwatchAll => {
                if r.is_ok() {
                    check!(after.is_empty(), "still watched after unwatch_all", "{after:?}");
                    model.clear();
                }
                else {
                    check!(simrt::decide::rate(Fault::AcquireErr) > 0, "unwatch_all refused", "{before:?}");
                    model.retain(|p| after.contains_key(p));
                    simrt::probe("watch:unwatch_all fails in part");
                }
            }
        }
        check!(after.keys().cloned().collect::<BTreeSet<_>>() == model, "wrong set of watched paths", "{after:?}, should be {model:?}");
    }
    // Once the failures stop everything can be unwatched.
    let want = simrt::join(source);
    simrt::faults_off();
    let r = dw.unwatch_all();
    check!(r.is_ok() && snapshot(&sh).is_empty(), "still watched after unwatch_all", "{:?}", snapshot(&sh));
    let got = got.lock().unwrap().clone();
    // Exactly once, in order, with the right kind; for a renaming any kind will do.
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.1 == w.1 && (g.0 == w.0 || w.2));
    check!(same, "wrong events", "the callback saw {got:?}, the source reported {want:?}");
}
pub static WATCH: Scenario = Scenario { name: "watch", about: "files change while a client changes what is watched", make, run };
