//! In-memory file system of a run, with fault injection and a crash model.
use crate::{
    decide::{self, Fault},
    sched, shm,
};
use libc::*;
use std::collections::BTreeMap;

#[derive(Clone)]
pub enum Node {
    File { data: Vec<u8>, durable: Vec<u8>, synced: bool },
    Dir { ents: BTreeMap<Vec<u8>, usize>, parent: usize },
    Link { to: Vec<u8> },
}
#[derive(Clone)]
struct Inode {
    node: Node,
    mode: u32,
    mtime: u64,
    nlink: u32,
}
struct Open {
    ino: usize,
    /// Shared by duplicated descriptors.
    pos: std::rc::Rc<std::cell::Cell<u64>>,
    flags: i32,
    path: String,
    tid: i32,
}
struct DirIter {
    fd: i32,
    ents: Vec<(Vec<u8>, usize, u8)>,
    pos: usize,
    path: String,
    buf: Box<dirent64>,
}
/// An injected fault or an observed modification, for narrow relaxations in oracles.
#[derive(Clone, Debug)]
pub struct FsEvent {
    pub seq: u64,
    pub tid: i32,
    pub op: &'static str,
    pub path: String,
    pub fault: &'static str,
    /// The call failed (or data was lost) because of the fault; short transfers and EINTR are not hard.
    pub hard: bool,
}
pub struct Fs {
    inodes: Vec<Inode>,
    fds: BTreeMap<i32, Open>,
    next_fd: i32,
    dirs: Vec<Option<Box<DirIter>>>,
    pub cwd: String,
    pub log: Vec<FsEvent>,
    pub ops: u64,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub stdin: Vec<u8>,
    pub crash_to: Option<usize>,
    /// Inode, descriptor, exclusive
    locks: Vec<(usize, i32, bool)>,
}
static mut FS: Option<Fs> = None;
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs {
    unsafe { FS.as_mut().unwrap() }
}
pub fn start() {
    let mut f = Fs { inodes: vec![], fds: BTreeMap::new(), next_fd: 1000, dirs: vec![], cwd: "/work".into(), log: vec![], ops: 0, stdout: vec![], stderr: vec![], stdin: vec![], crash_to: None, locks: vec![] };
    f.inodes.push(Inode { node: Node::Dir { ents: BTreeMap::new(), parent: 0 }, mode: 0o755, mtime: 0, nlink: 2 });
    unsafe { FS = Some(f) }
    mkdirs("/work");
    mkdirs("/tmp");
}
type R<T> = Result<T, i32>;
struct Found {
    dir: usize,
    name: Vec<u8>,
    ino: Option<usize>,
}
impl Fs {
    fn now_s(&self) -> u64 {
        (sched::s().now as i64 + sched::s().real_off) as u64
    }
    fn alloc(&mut self, node: Node, mode: u32) -> usize {
        let mtime = self.now_s();
        self.inodes.push(Inode { node, mode, mtime, nlink: 1 });
        self.inodes.len() - 1
    }
    fn abs(&self, path: &str) -> String {
        if path.starts_with('/') { path.to_string() } else { format!("{}/{}", self.cwd, path) }
    }
    fn walk(&self, path: &str, follow_last: bool) -> R<Found> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        let mut comps: Vec<Vec<u8>> = self.abs(path).into_bytes().split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).rev().collect();
        let trailing = path.ends_with('/');
        let mut cur = 0usize;
        let mut last = Found { dir: 0, name: b".".to_vec(), ino: Some(0) };
        let mut links = 0;
        while let Some(c) = comps.pop() {
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let (ents, parent) = match &self.inodes[cur].node {
                Node::Dir { ents, parent } => (ents, *parent),
                _ => return Err(ENOTDIR),
            };
            if c == b"." {
                last = Found { dir: parent, name: c, ino: Some(cur) };
                continue;
            }
            if c == b".." {
                cur = parent;
                last = Found { dir: parent, name: c, ino: Some(cur) };
                continue;
            }
            match ents.get(&c) {
                None => {
                    if comps.is_empty() {
                        return Ok(Found { dir: cur, name: c, ino: None });
                    }
                    return Err(ENOENT);
                }
                Some(i) => {
                    if let Node::Link { to } = &self.inodes[*i].node {
                        if !comps.is_empty() || follow_last || trailing {
                            links += 1;
                            if links > 40 {
                                return Err(ELOOP);
                            }
                            if to.starts_with(b"/") {
                                cur = 0
                            }
                            for p in to.split(|b| *b == b'/').filter(|p| !p.is_empty()).rev() {
                                comps.push(p.to_vec())
                            }
                            if comps.is_empty() {
                                last = Found { dir: 0, name: b".".to_vec(), ino: Some(cur) };
                            }
                            continue;
                        }
                    }
                    last = Found { dir: cur, name: c, ino: Some(*i) };
                    cur = *i;
                }
            }
        }
        if trailing && !matches!(self.inodes[last.ino.unwrap()].node, Node::Dir { .. }) {
            return Err(ENOTDIR);
        }
        Ok(last)
    }
    fn lookup(&self, path: &str, follow: bool) -> R<usize> {
        self.walk(path, follow)?.ino.ok_or(ENOENT)
    }
    fn ents(&mut self, dir: usize) -> &mut BTreeMap<Vec<u8>, usize> {
        match &mut self.inodes[dir].node {
            Node::Dir { ents, .. } => ents,
            _ => unreachable!(),
        }
    }
    fn path_of(&self, fd: i32) -> String {
        self.fds.get(&fd).map(|o| o.path.clone()).unwrap_or_default()
    }
    fn note(&mut self, op: &'static str, path: &str, fault: &'static str, hard: bool) {
        let e = FsEvent { seq: sched::seq(), tid: sched::tid(), op, path: self.abs(path), fault, hard };
        self.log.push(e)
    }
    fn touch(&mut self, ino: usize) {
        self.inodes[ino].mtime = self.now_s()
    }
}
/// Before every operation: crash, slow I/O.
fn pre() {
    fs().ops += 1;
    if decide::fault(Fault::Crash) {
        if let Some(k) = fs().crash_to.take() {
            crash_now(k)
        }
    }
    let v = decide::fault_val(Fault::IoDelay, 40);
    if v != 0 {
        // 1 us .. about 1000 s, exponentially distributed.
        let ns = 1000u64 << (v * 3 / 4);
        sched::sleep_ns(ns)
    }
}
/// The process dies now: unsynced file contents may be lost or torn; thread `keep` goes on as the restarted process.
pub fn crash_now(keep: usize) {
    {
        let n = fs().inodes.len();
        for i in 0..n {
            let f = &mut fs().inodes[i];
            if let Node::File { data, durable, synced } = &mut f.node {
                if !*synced {
                    match decide::fault_val(Fault::TornWrite, 4) {
                        1 => {
                            let k = decide::choose(data.len() as u32 + 1) as usize;
                            data.truncate(k)
                        }
                        2 => data.clear(),
                        3 => {
                            let k = decide::choose(data.len() as u32 + 1) as usize;
                            for b in &mut data[k..] {
                                *b = 0
                            }
                        }
                        4 => *data = durable.clone(),
                        _ => {}
                    }
                }
                *durable = data.clone();
                *synced = true;
            }
        }
        let _g = sched::Rt::enter();
        fs().note("crash", "/", "crash", true);
        fs().fds.clear();
        fs().crash_to = None;
    }
    sched::crash(keep)
}
macro_rules! rt {
    ($e:expr) => {{
        let _g = sched::Rt::enter();
        $e
    }};
}
fn inject(op: &'static str, path: &str, f: Fault, errs: &[i32]) -> R<()> {
    let v = decide::fault_val(f, errs.len() as u32);
    if v != 0 {
        rt!(fs().note(op, path, f.name(), true));
        return Err(errs[v as usize - 1]);
    }
    Ok(())
}
fn eintr(op: &'static str, path: &str, f: Fault) -> R<()> {
    if decide::fault(f) {
        rt!(fs().note(op, path, f.name(), false));
        return Err(EINTR);
    }
    Ok(())
}
pub fn open(path: &str, flags: i32, mode: u32) -> R<i32> {
    pre();
    eintr("open", path, Fault::OpenEintr)?;
    inject("open", path, Fault::OpenErr, &[EACCES, EMFILE, EIO])?;
    rt!({
        let fs = fs();
        let w = fs.walk(path, flags & O_NOFOLLOW == 0)?;
        let acc = flags & O_ACCMODE;
        let ino = match w.ino {
            Some(i) => {
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                    return Err(EEXIST);
                }
                let is_dir = matches!(fs.inodes[i].node, Node::Dir { .. });
                if matches!(fs.inodes[i].node, Node::Link { .. }) {
                    return Err(ELOOP);
                }
                if flags & O_DIRECTORY != 0 && !is_dir {
                    return Err(ENOTDIR);
                }
                if is_dir && (acc != O_RDONLY || flags & O_CREAT != 0) {
                    return Err(EISDIR);
                }
                if fs.inodes[i].mode & 0o444 == 0 && acc != O_WRONLY || fs.inodes[i].mode & 0o222 == 0 && acc != O_RDONLY {
                    return Err(EACCES);
                }
                if flags & O_TRUNC != 0 && acc != O_RDONLY {
                    if let Node::File { data, synced, .. } = &mut fs.inodes[i].node {
                        data.clear();
                        *synced = false
                    }
                    fs.touch(i);
                }
                i
            }
            None => {
                if flags & O_CREAT == 0 {
                    return Err(ENOENT);
                }
                if path.ends_with('/') {
                    return Err(EISDIR);
                }
                let i = fs.alloc(Node::File { data: vec![], durable: vec![], synced: false }, mode & 0o7777);
                fs.ents(w.dir).insert(w.name, i);
                fs.touch(w.dir);
                i
            }
        };
        let fd = fs.next_fd;
        fs.next_fd += 1;
        let p = fs.abs(path);
        fs.fds.insert(fd, Open { ino, pos: Default::default(), flags, path: p, tid: sched::tid() });
        Ok(fd)
    })
}
pub fn is_fd(fd: i32) -> bool {
    fd >= 1000
}
pub fn read(fd: i32, buf: *mut u8, len: usize, at: Option<u64>) -> R<usize> {
    let path = rt!(fs().path_of(fd));
    pre();
    eintr("read", &path, Fault::ReadEintr)?;
    inject("read", &path, Fault::ReadErr, &[EIO])?;
    let avail = rt!({
        let fs = fs();
        let o = fs.fds.get(&fd).ok_or(EBADF)?;
        if o.flags & O_ACCMODE == O_WRONLY {
            return Err(EBADF);
        }
        let pos = at.unwrap_or(o.pos.get()) as usize;
        match &fs.inodes[o.ino].node {
            Node::File { data, .. } => data.len().saturating_sub(pos).min(len),
            _ => return Err(EISDIR),
        }
    });
    let mut n = avail;
    if n > 1 {
        let v = decide::fault_val(Fault::ReadShort, (n - 1).min(1 << 20) as u32);
        if v != 0 {
            n = v as usize;
            rt!(fs().note("read", &path, "short", false));
        }
    }
    rt!({
        let fs = fs();
        let o = fs.fds.get_mut(&fd).ok_or(EBADF)?;
        let pos = at.unwrap_or(o.pos.get()) as usize;
        if let Node::File { data, .. } = &fs.inodes[o.ino].node {
            let n = n.min(data.len().saturating_sub(pos));
            if n > 0 {
                unsafe { std::ptr::copy_nonoverlapping(data.as_ptr().add(pos), buf, n) }
            }
            if at.is_none() {
                o.pos.set(o.pos.get() + n as u64)
            }
            Ok(n)
        }
        else {
            Err(EISDIR)
        }
    })
}
pub fn write(fd: i32, buf: *const u8, len: usize, at: Option<u64>) -> R<usize> {
    let path = rt!(fs().path_of(fd));
    pre();
    eintr("write", &path, Fault::WriteEintr)?;
    inject("write", &path, Fault::WriteErr, &[EIO])?;
    let mut n = len;
    let v = decide::fault_val(Fault::NoSpace, len.min(1 << 20) as u32 + 1);
    if v != 0 {
        rt!(fs().note("write", &path, "fs_disk_full", true));
        n = v as usize - 1;
        if n == 0 {
            return Err(ENOSPC);
        }
    }
    else if n > 1 {
        let v = decide::fault_val(Fault::WriteShort, (n - 1).min(1 << 20) as u32);
        if v != 0 {
            n = v as usize;
            rt!(fs().note("write", &path, "short", false));
        }
    }
    rt!({
        let fs = fs();
        let o = fs.fds.get_mut(&fd).ok_or(EBADF)?;
        if o.flags & O_ACCMODE == O_RDONLY {
            return Err(EBADF);
        }
        let ino = o.ino;
        let Node::File { data, synced, .. } = &mut fs.inodes[ino].node
        else { return Err(EISDIR) };
        let pos = if o.flags & O_APPEND != 0 { data.len() } else { at.unwrap_or(o.pos.get()) as usize };
        if data.len() < pos + n {
            data.resize(pos + n, 0)
        }
        unsafe { std::ptr::copy_nonoverlapping(buf, data.as_mut_ptr().add(pos), n) }
        *synced = false;
        if at.is_none() {
            o.pos.set((pos + n) as u64)
        }
        fs.touch(ino);
        Ok(n)
    })
}
pub fn close(fd: i32) -> R<()> {
    sched::point();
    rt!(fs().fds.remove(&fd).map(|_| ()).ok_or(EBADF))
}
pub fn seek(fd: i32, off: i64, whence: i32) -> R<i64> {
    rt!({
        let fs = fs();
        let o = fs.fds.get_mut(&fd).ok_or(EBADF)?;
        let size = match &fs.inodes[o.ino].node {
            Node::File { data, .. } => data.len() as i64,
            _ => 0,
        };
        let p = match whence {
            SEEK_SET => off,
            SEEK_CUR => o.pos.get() as i64 + off,
            SEEK_END => size + off,
            _ => return Err(EINVAL),
        };
        if p < 0 {
            return Err(EINVAL);
        }
        o.pos.set(p as u64);
        Ok(p)
    })
}
pub fn dup(fd: i32) -> R<i32> {
    sched::point();
    rt!({
        let fs = fs();
        let o = fs.fds.get(&fd).ok_or(EBADF)?;
        let o = Open { ino: o.ino, pos: o.pos.clone(), flags: o.flags, path: o.path.clone(), tid: sched::tid() };
        let n = fs.next_fd;
        fs.next_fd += 1;
        fs.fds.insert(n, o);
        Ok(n)
    })
}
/// The flags of an open descriptor.
pub fn flags(fd: i32) -> R<i32> {
    rt!(fs().fds.get(&fd).map(|o| o.flags).ok_or(EBADF))
}
/// Advisory lock of the file; false if another descriptor holds one that conflicts.
pub fn try_lock(fd: i32, exclusive: bool) -> R<bool> {
    sched::point();
    rt!({
        let fs = fs();
        let ino = fs.fds.get(&fd).ok_or(EBADF)?.ino;
        let clash = fs.locks.iter().any(|l| l.0 == ino && l.1 != fd && (exclusive || l.2) && fs.fds.contains_key(&l.1));
        if !clash {
            fs.locks.retain(|l| l.1 != fd && fs.fds.contains_key(&l.1));
            fs.locks.push((ino, fd, exclusive))
        }
        Ok(!clash)
    })
}
pub fn unlock(fd: i32) -> R<()> {
    sched::point();
    rt!({
        fs().fds.get(&fd).ok_or(EBADF)?;
        fs().locks.retain(|l| l.1 != fd);
        Ok(())
    })
}
pub fn set_mtime(fd: i32, path: &str, follow: bool, t: Option<u64>) -> R<()> {
    pre();
    rt!({
        let fs = fs();
        let i = if path.is_empty() { fs.fds.get(&fd).ok_or(EBADF)?.ino } else { fs.lookup(path, follow)? };
        fs.inodes[i].mtime = t.unwrap_or(fs.now_s());
        Ok(())
    })
}
pub fn chdir(path: &str) -> R<()> {
    rt!({
        let i = fs().lookup(path, true)?;
        if !matches!(fs().inodes[i].node, Node::Dir { .. }) {
            return Err(ENOTDIR);
        }
        fs().cwd = fs().abs(path);
        Ok(())
    })
}
pub struct Meta {
    pub ino: u64,
    pub mode: u32,
    pub size: u64,
    pub mtime: u64,
    pub nlink: u32,
}
fn meta(i: usize) -> Meta {
    let n = &fs().inodes[i];
    let (t, size) = match &n.node {
        Node::File { data, .. } => (S_IFREG, data.len() as u64),
        Node::Dir { .. } => (S_IFDIR, 4096),
        Node::Link { to } => (S_IFLNK, to.len() as u64),
    };
    Meta { ino: i as u64 + 2, mode: t | n.mode, size, mtime: n.mtime, nlink: n.nlink }
}
pub fn stat_path(path: &str, follow: bool) -> R<Meta> {
    pre();
    inject("stat", path, Fault::StatErr, &[EACCES, EIO])?;
    rt!(fs().lookup(path, follow).map(meta))
}
pub fn stat_fd(fd: i32) -> R<Meta> {
    sched::point();
    let path = rt!(fs().path_of(fd));
    inject("fstat", &path, Fault::StatErr, &[EIO])?;
    rt!({
        let i = fs().fds.get(&fd).ok_or(EBADF)?.ino;
        Ok(meta(i))
    })
}
pub fn at_path(dirfd: i32, path: &str) -> String {
    if path.starts_with('/') || dirfd == AT_FDCWD { path.to_string() } else { format!("{}/{}", fs().path_of(dirfd), path) }
}
pub fn mkdir(path: &str, mode: u32) -> R<()> {
    pre();
    inject("mkdir", path, Fault::MkdirErr, &[EACCES, ENOSPC])?;
    rt!({
        let fs = fs();
        let w = fs.walk(path.trim_end_matches('/'), false)?;
        if w.ino.is_some() {
            return Err(EEXIST);
        }
        let i = fs.alloc(Node::Dir { ents: BTreeMap::new(), parent: w.dir }, mode & 0o777);
        fs.ents(w.dir).insert(w.name, i);
        fs.touch(w.dir);
        Ok(())
    })
}
pub fn unlink(path: &str, dir: bool) -> R<()> {
    pre();
    inject("unlink", path, Fault::AcquireErr, &[EACCES, EIO])?;
    rt!({
        let fs = fs();
        let w = fs.walk(path, false)?;
        let i = w.ino.ok_or(ENOENT)?;
        match (&fs.inodes[i].node, dir) {
            (Node::Dir { ents, .. }, true) => {
                if !ents.is_empty() {
                    return Err(ENOTEMPTY);
                }
            }
            (Node::Dir { .. }, false) => return Err(EISDIR),
            (_, true) => return Err(ENOTDIR),
            _ => {}
        }
        fs.ents(w.dir).remove(&w.name);
        fs.touch(w.dir);
        fs.inodes[i].nlink -= 1;
        Ok(())
    })
}
pub fn rename(a: &str, b: &str) -> R<()> {
    pre();
    inject("rename", a, Fault::AcquireErr, &[EACCES, EIO])?;
    rt!({
        let fs = fs();
        let wa = fs.walk(a, false)?;
        let ia = wa.ino.ok_or(ENOENT)?;
        let wb = fs.walk(b, false)?;
        if wb.ino == Some(ia) {
            return Ok(());
        }
        let a_dir = matches!(fs.inodes[ia].node, Node::Dir { .. });
        if let Some(ib) = wb.ino {
            match (&fs.inodes[ib].node, a_dir) {
                (Node::Dir { ents, .. }, true) => {
                    if !ents.is_empty() {
                        return Err(ENOTEMPTY);
                    }
                }
                (Node::Dir { .. }, false) => return Err(EISDIR),
                (_, true) => return Err(ENOTDIR),
                _ => {}
            }
        }
        fs.ents(wa.dir).remove(&wa.name);
        fs.ents(wb.dir).insert(wb.name, ia);
        if let Node::Dir { parent, .. } = &mut fs.inodes[ia].node {
            *parent = wb.dir
        }
        fs.touch(wa.dir);
        fs.touch(wb.dir);
        Ok(())
    })
}
pub fn hardlink(a: &str, b: &str) -> R<()> {
    pre();
    rt!({
        let fs = fs();
        let i = fs.lookup(a, false)?;
        let w = fs.walk(b, false)?;
        if w.ino.is_some() {
            return Err(EEXIST);
        }
        fs.ents(w.dir).insert(w.name, i);
        fs.inodes[i].nlink += 1;
        Ok(())
    })
}
pub fn symlink(to: &str, path: &str) -> R<()> {
    pre();
    rt!({
        let fs = fs();
        let w = fs.walk(path, false)?;
        if w.ino.is_some() {
            return Err(EEXIST);
        }
        let i = fs.alloc(Node::Link { to: to.as_bytes().to_vec() }, 0o777);
        fs.ents(w.dir).insert(w.name, i);
        Ok(())
    })
}
pub fn readlink(path: &str) -> R<Vec<u8>> {
    pre();
    rt!({
        let fs = fs();
        let i = fs.lookup(path, false)?;
        match &fs.inodes[i].node {
            Node::Link { to } => Ok(to.clone()),
            _ => Err(EINVAL),
        }
    })
}
pub fn realpath(path: &str) -> R<String> {
    pre();
    inject("realpath", path, Fault::StatErr, &[EACCES, EIO])?;
    rt!({
        let fs = fs();
        let mut i = fs.lookup(path, true)?;
        let mut parts: Vec<String> = vec![];
        // Files have one name in practice; walk up by searching the parent chain.
        if !matches!(fs.inodes[i].node, Node::Dir { .. }) {
            let mut found = None;
            for (d, n) in fs.inodes.iter().enumerate() {
                if let Node::Dir { ents, .. } = &n.node {
                    for (k, v) in ents {
                        if *v == i {
                            found = Some((d, k.clone()))
                        }
                    }
                }
            }
            let (d, k) = found.ok_or(ENOENT)?;
            parts.push(String::from_utf8_lossy(&k).into_owned());
            i = d;
        }
        while i != 0 {
            let Node::Dir { parent, .. } = &fs.inodes[i].node else { unreachable!() };
            let p = *parent;
            let Node::Dir { ents, .. } = &fs.inodes[p].node else { unreachable!() };
            let k = ents.iter().find(|e| *e.1 == i).map(|e| e.0.clone()).ok_or(ENOENT)?;
            parts.push(String::from_utf8_lossy(&k).into_owned());
            i = p;
        }
        parts.reverse();
        Ok(format!("/{}", parts.join("/")))
    })
}
pub fn opendir(path: &str) -> R<usize> {
    pre();
    inject("opendir", path, Fault::OpenErr, &[EACCES, EMFILE, EIO])?;
    rt!({
        let fs = fs();
        let i = fs.lookup(path, true)?;
        dir_iter(i, path)
    })
}
fn dir_iter(i: usize, path: &str) -> R<usize> {
    let fs = fs();
    let Node::Dir { ents, .. } = &fs.inodes[i].node
    else { return Err(ENOTDIR) };
    let mut v: Vec<(Vec<u8>, usize, u8)> = ents
        .iter()
        .map(|(k, i)| {
            let t = match &fs.inodes[*i].node {
                Node::File { .. } => DT_REG,
                Node::Dir { .. } => DT_DIR,
                Node::Link { .. } => DT_LNK,
            };
            (k.clone(), *i, t)
        })
        .collect();
    // Directory order is arbitrary.
    for k in (1..v.len()).rev() {
        let j = decide::choose_in_rt(k as u32 + 1) as usize;
        v.swap(k, k - j)
    }
    let fd = fs.next_fd;
    fs.next_fd += 1;
    let p = fs.abs(path);
    fs.fds.insert(fd, Open { ino: i, pos: Default::default(), flags: O_RDONLY, path: p.clone(), tid: sched::tid() });
    fs.dirs.push(Some(Box::new(DirIter { fd, ents: v, pos: 0, path: p, buf: Box::new(unsafe { std::mem::zeroed() }) })));
    Ok(fs.dirs.len())
}
pub fn fdopendir(fd: i32) -> R<usize> {
    rt!({
        let o = fs().fds.get(&fd).ok_or(EBADF)?;
        let (i, p) = (o.ino, o.path.clone());
        dir_iter(i, &p)
    })
}
pub fn readdir(d: usize) -> R<*mut dirent64> {
    let path = rt!(fs().dirs[d - 1].as_ref().unwrap().path.clone());
    pre();
    inject("readdir", &path, Fault::DirErr, &[EIO])?;
    rt!({
        let it = fs().dirs[d - 1].as_mut().unwrap();
        if it.pos >= it.ents.len() {
            return Ok(std::ptr::null_mut());
        }
        let (name, ino, t) = it.ents[it.pos].clone();
        it.pos += 1;
        let b = &mut *it.buf;
        b.d_ino = ino as u64 + 2;
        b.d_type = t;
        b.d_reclen = std::mem::size_of::<dirent64>() as u16;
        for (k, c) in name.iter().chain(std::iter::once(&0)).enumerate() {
            b.d_name[k] = *c as c_char
        }
        Ok(b as *mut dirent64)
    })
}
pub fn closedir(d: usize) {
    rt!({
        let it = fs().dirs[d - 1].take().unwrap();
        fs().fds.remove(&it.fd);
    })
}
pub fn dirfd(d: usize) -> i32 {
    fs().dirs[d - 1].as_ref().unwrap().fd
}
pub fn truncate_fd(fd: i32, len: u64) -> R<()> {
    pre();
    rt!({
        let fs = fs();
        let i = fs.fds.get(&fd).ok_or(EBADF)?.ino;
        if let Node::File { data, synced, .. } = &mut fs.inodes[i].node {
            data.resize(len as usize, 0);
            *synced = false
        }
        fs.touch(i);
        Ok(())
    })
}
pub fn sync_fd(fd: i32) -> R<()> {
    let path = rt!(fs().path_of(fd));
    pre();
    inject("fsync", &path, Fault::SyncErr, &[EIO])?;
    rt!({
        let fs = fs();
        let i = fs.fds.get(&fd).ok_or(EBADF)?.ino;
        if let Node::File { data, durable, synced } = &mut fs.inodes[i].node {
            *durable = data.clone();
            *synced = true
        }
        Ok(())
    })
}
pub fn chmod(path: &str, mode: u32) -> R<()> {
    rt!({
        let i = fs().lookup(path, true)?;
        fs().inodes[i].mode = mode & 0o7777;
        Ok(())
    })
}
pub fn access(path: &str) -> R<()> {
    pre();
    rt!(fs().lookup(path, true).map(|_| ()))
}

// ---- direct access for scenarios: no faults, no scheduling points ----
pub fn mkdirs(path: &str) {
    rt!({
        let fs = fs();
        let mut cur = String::new();
        for c in fs.abs(path).split('/').filter(|c| !c.is_empty()) {
            cur = format!("{cur}/{c}");
            let w = fs.walk(&cur, true).expect("mkdirs");
            if w.ino.is_none() {
                let i = fs.alloc(Node::Dir { ents: BTreeMap::new(), parent: w.dir }, 0o755);
                fs.ents(w.dir).insert(w.name, i);
            }
        }
    })
}
pub fn put(path: &str, bytes: &[u8]) {
    rt!({
        if let Some(p) = path.rfind('/') {
            mkdirs(&path[..p])
        }
        let fs = fs();
        let w = fs.walk(path, true).expect("put");
        let node = Node::File { data: bytes.to_vec(), durable: bytes.to_vec(), synced: true };
        match w.ino {
            Some(i) => {
                fs.inodes[i].node = node;
                fs.touch(i)
            }
            None => {
                let i = fs.alloc(node, 0o644);
                fs.ents(w.dir).insert(w.name, i);
            }
        }
    })
}
pub fn put_link(path: &str, to: &str) {
    rt!({
        let fs = fs();
        let w = fs.walk(path, false).expect("put_link");
        let i = fs.alloc(Node::Link { to: to.as_bytes().to_vec() }, 0o777);
        fs.ents(w.dir).insert(w.name, i);
    })
}
pub fn get(path: &str) -> Option<Vec<u8>> {
    rt!({
        let fs = fs();
        let i = fs.lookup(path, true).ok()?;
        match &fs.inodes[i].node {
            Node::File { data, .. } => Some(data.clone()),
            _ => None,
        }
    })
}
pub fn del(path: &str) {
    rt!({
        let fs = fs();
        if let Ok(w) = fs.walk(path, false) {
            if w.ino.is_some() {
                fs.ents(w.dir).remove(&w.name);
            }
        }
    })
}
pub fn deny(path: &str, mode: u32) {
    let _ = chmod(path, mode);
}
pub fn kind(path: &str) -> Option<char> {
    rt!({
        let fs = fs();
        let i = fs.lookup(path, true).ok()?;
        Some(match &fs.inodes[i].node {
            Node::File { .. } => 'f',
            Node::Dir { .. } => 'd',
            Node::Link { .. } => 'l',
        })
    })
}
/// Where a symbolic link leads.
pub fn link(path: &str) -> Option<String> {
    rt!({
        let fs = fs();
        let i = fs.lookup(path, false).ok()?;
        match &fs.inodes[i].node {
            Node::Link { to } => Some(String::from_utf8_lossy(to).into_owned()),
            _ => None,
        }
    })
}
pub fn mtime(path: &str) -> Option<u64> {
    rt!({
        let fs = fs();
        let i = fs.lookup(path, true).ok()?;
        Some(fs.inodes[i].mtime)
    })
}
/// Names in a directory, sorted.
pub fn list(path: &str) -> Option<Vec<String>> {
    rt!({
        let fs = fs();
        let i = fs.lookup(path, true).ok()?;
        match &fs.inodes[i].node {
            Node::Dir { ents, .. } => Some(ents.keys().map(|k| String::from_utf8_lossy(k).into_owned()).collect()),
            _ => None,
        }
    })
}
/// All files below `root` without following links: path -> contents.
pub fn tree(root: &str) -> BTreeMap<String, Vec<u8>> {
    rt!({
        let mut out = BTreeMap::new();
        let fs = fs();
        let mut todo = vec![root.trim_end_matches('/').to_string()];
        while let Some(p) = todo.pop() {
            let Ok(i) = fs.lookup(if p.is_empty() { "/" } else { &p }, false)
            else { continue };
            match &fs.inodes[i].node {
                Node::File { data, .. } => {
                    out.insert(p, data.clone());
                }
                Node::Dir { ents, .. } => {
                    for k in ents.keys() {
                        todo.push(format!("{p}/{}", String::from_utf8_lossy(k)))
                    }
                }
                _ => {}
            }
        }
        out
    })
}
pub fn events() -> Vec<FsEvent> {
    rt!(fs().log.clone())
}
pub fn open_fds() -> usize {
    fs().fds.len()
}
pub fn stdout_write(fd: i32, buf: *const u8, len: usize) -> R<usize> {
    sched::point();
    if fd == 1 {
        let v = decide::fault_val(Fault::StdoutErr, 3);
        if v != 0 {
            rt!(fs().note("write", "<stdout>", "stdout_error", true));
            return Err([EIO, EPIPE, EAGAIN][v as usize - 1]);
        }
    }
    if fd == 2 {
        let v = decide::fault_val(Fault::StderrErr, 2);
        if v != 0 {
            rt!(fs().note("write", "<stderr>", "stderr_error", false));
            return Err([EIO, EPIPE][v as usize - 1]);
        }
    }
    let mut n = len;
    if n > 1 {
        let v = decide::fault_val(Fault::StreamWriteShort, (n - 1).min(1 << 16) as u32);
        if v != 0 {
            n = v as usize
        }
    }
    rt!({
        let b = unsafe { std::slice::from_raw_parts(buf, n) };
        let sink = if fd == 1 { &mut fs().stdout } else { &mut fs().stderr };
        if sink.len() < 1 << 20 {
            sink.extend_from_slice(b)
        }
        if fd == 2 && crate::debug() {
            crate::sys::eprint_raw(&String::from_utf8_lossy(b));
        }
    });
    let _ = shm::get();
    Ok(n)
}
