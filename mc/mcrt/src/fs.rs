//! `std::fs` on the real file system (a scratch directory), with every operation counted, logged
//! and subject to a planned crash or failure.
pub use ::std::fs::*;
use crate::rt::{active, die, point, teardown, world, Failure};
use ::std::collections::BTreeMap;
use ::std::io::{self, Read, Seek, SeekFrom, Write};
use ::std::os::unix::fs::MetadataExt;
use ::std::path::Path;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Plan {
    None,
    /// stop at operation `at`, having done only `keep` bytes of it if it is a write
    Crash { at: u64, keep: usize },
    /// operation `at` (and, if sticky, every later write-like one) fails, after `keep` bytes if it
    /// is a write
    Fail { at: u64, keep: usize, errno: i32, sticky: bool },
}
#[derive(Clone, Debug)]
pub struct Op {
    pub what: String,
    /// number of bytes if this is a write
    pub len: Option<usize>,
}
pub struct Fs {
    pub count: u64,
    pub log: Vec<Op>,
    pub plan: Plan,
    pub fired: bool,
    /// inode -> length known to be on the disk, for files with unsynced data
    pub dirty: BTreeMap<u64, u64>,
}
impl Default for Fs {
    fn default() -> Self {
        Fs { count: 0, log: vec![], plan: Plan::None, fired: false, dirty: BTreeMap::new() }
    }
}

enum Act {
    Go,
    Partial(usize, Option<i32>),
}
fn step(what: String, len: Option<usize>) -> io::Result<Act> {
    if !active() || teardown() {
        return Ok(Act::Go);
    }
    point("fs");
    let fs = &mut world().fs;
    let k = fs.count;
    fs.count += 1;
    let is_sync = what.starts_with("sync");
    let is_read = what.starts_with("open") || what.starts_with("metadata");
    fs.log.push(Op { what, len });
    match fs.plan {
        Plan::None => Ok(Act::Go),
        Plan::Crash { at, keep } => {
            if k == at {
                fs.fired = true;
                if len.is_some() {
                    return Ok(Act::Partial(keep, None));
                }
                die(Failure::Killed("crash".into()));
            }
            Ok(Act::Go)
        }
        Plan::Fail { at, keep, errno, sticky } => {
            let hit = k == at || (sticky && k > at && (len.is_some() || is_sync));
            if hit && !is_read {
                fs.fired = true;
                if len.is_some() && k == at && keep > 0 {
                    return Ok(Act::Partial(keep, Some(errno)));
                }
                return Err(io::Error::from_raw_os_error(errno));
            }
            if hit && is_read && k == at {
                fs.fired = true;
                return Err(io::Error::from_raw_os_error(errno));
            }
            Ok(Act::Go)
        }
    }
}
fn name(p: &Path) -> String {
    p.file_name().map(|x| x.to_string_lossy().to_string()).unwrap_or_default()
}
/// The execution is being torn down: the program is dead already and does nothing any more.
fn dead() -> bool {
    active() && teardown()
}
fn gone<T>() -> io::Result<T> {
    Err(io::Error::from_raw_os_error(5))
}
fn simple(what: String) -> io::Result<()> {
    step(what, None).map(|_| ())
}

#[derive(Debug)]
pub struct File {
    f: ::std::fs::File,
    name: String,
}
impl File {
    fn mark(&self) {
        if active() && !teardown() {
            if let Ok(m) = self.f.metadata() {
                world().fs.dirty.entry(m.ino()).or_insert(m.len());
            }
        }
    }
    fn mark_empty(&self) {
        if active() && !teardown() {
            if let Ok(m) = self.f.metadata() {
                world().fs.dirty.insert(m.ino(), 0);
            }
        }
    }
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        let p = p.as_ref();
        simple(format!("open {}", name(p)))?;
        Ok(File { f: ::std::fs::File::open(p)?, name: name(p) })
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        if dead() {
            return gone();
        }
        let p = p.as_ref();
        simple(format!("create {}", name(p)))?;
        let f = File { f: ::std::fs::File::create(p)?, name: name(p) };
        f.mark_empty();
        Ok(f)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
        if dead() {
            return gone();
        }
        let p = p.as_ref();
        simple(format!("create {}", name(p)))?;
        let f = File { f: ::std::fs::File::create_new(p)?, name: name(p) };
        f.mark_empty();
        Ok(f)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        simple(format!("metadata {}", self.name))?;
        self.f.metadata()
    }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        if dead() {
            return Ok(());
        }
        simple(format!("set_len {}", self.name))?;
        self.mark();
        self.f.set_len(n)
    }
    pub fn sync_all(&self) -> io::Result<()> {
        simple(format!("sync {}", self.name))?;
        if active() && !teardown() {
            if let Ok(m) = self.f.metadata() {
                world().fs.dirty.remove(&m.ino());
            }
        }
        Ok(())
    }
    pub fn sync_data(&self) -> io::Result<()> {
        self.sync_all()
    }
    pub fn set_permissions(&self, p: Permissions) -> io::Result<()> {
        self.f.set_permissions(p)
    }
    pub fn try_clone(&self) -> io::Result<File> {
        Ok(File { f: self.f.try_clone()?, name: self.name.clone() })
    }
    fn do_write(&self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if dead() {
            return Ok(b.len());
        }
        let a = step(format!("write {} ({} bytes)", self.name, b.len()), Some(b.len()))?;
        self.mark();
        match a {
            Act::Go => (&self.f).write(b),
            Act::Partial(k, e) => {
                let k = k.min(b.len());
                let mut f = &self.f;
                if k > 0 {
                    f.write_all(&b[..k])?;
                }
                match e {
                    None => die(Failure::Killed("crash".into())),
                    Some(_) => Ok(k),
                }
            }
        }
    }
}
impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.f.read(b)
    }
}
impl Read for &File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        (&self.f).read(b)
    }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.do_write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.do_write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for File {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.f.seek(p)
    }
}
#[derive(Clone, Debug)]
pub struct OpenOptions {
    o: ::std::fs::OpenOptions,
    trunc: bool,
    mutating: bool,
}
impl OpenOptions {
    #[allow(clippy::new_without_default)]
    pub fn new() -> OpenOptions {
        OpenOptions { o: ::std::fs::OpenOptions::new(), trunc: false, mutating: false }
    }
    pub fn read(&mut self, b: bool) -> &mut Self {
        self.o.read(b);
        self
    }
    pub fn write(&mut self, b: bool) -> &mut Self {
        self.o.write(b);
        self.mutating |= b;
        self
    }
    pub fn append(&mut self, b: bool) -> &mut Self {
        self.o.append(b);
        self.mutating |= b;
        self
    }
    pub fn truncate(&mut self, b: bool) -> &mut Self {
        self.o.truncate(b);
        self.trunc = b;
        self
    }
    pub fn create(&mut self, b: bool) -> &mut Self {
        self.o.create(b);
        self.mutating |= b;
        self
    }
    pub fn create_new(&mut self, b: bool) -> &mut Self {
        self.o.create_new(b);
        self.mutating |= b;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        if dead() {
            return gone();
        }
        let p = p.as_ref();
        simple(format!("{} {}", if self.mutating { "create" } else { "open" }, name(p)))?;
        let f = File { f: self.o.open(p)?, name: name(p) };
        if self.trunc {
            f.mark_empty();
        } else if self.mutating {
            f.mark();
        }
        Ok(f)
    }
}
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    if dead() {
        return Ok(());
    }
    simple(format!("rename {} {}", name(a.as_ref()), name(b.as_ref())))?;
    ::std::fs::rename(a, b)
}
pub fn remove_file<P: AsRef<Path>>(a: P) -> io::Result<()> {
    if dead() {
        return Ok(());
    }
    simple(format!("remove {}", name(a.as_ref())))?;
    ::std::fs::remove_file(a)
}
pub fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    if dead() {
        return Ok(());
    }
    simple(format!("link {} {}", name(a.as_ref()), name(b.as_ref())))?;
    ::std::fs::hard_link(a, b)
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<u64> {
    let d = read(a)?;
    write(b, &d)?;
    Ok(d.len() as u64)
}
pub fn read<P: AsRef<Path>>(a: P) -> io::Result<Vec<u8>> {
    let mut f = File::open(a)?;
    let mut v = vec![];
    f.read_to_end(&mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(a: P) -> io::Result<String> {
    let mut f = File::open(a)?;
    let mut v = String::new();
    f.read_to_string(&mut v)?;
    Ok(v)
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(a: P, c: C) -> io::Result<()> {
    let mut f = File::create(a)?;
    f.write_all(c.as_ref())
}
pub fn metadata<P: AsRef<Path>>(a: P) -> io::Result<Metadata> {
    simple(format!("metadata {}", name(a.as_ref())))?;
    ::std::fs::metadata(a)
}
pub fn exists<P: AsRef<Path>>(a: P) -> io::Result<bool> {
    simple(format!("metadata {}", name(a.as_ref())))?;
    a.as_ref().try_exists()
}
