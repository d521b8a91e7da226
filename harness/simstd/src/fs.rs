use crate::rt::{call, norm, op, peek, sleep_ns, Step};
use crate::vfs::OpenFlags;
use ::std::io::{self, Read, Seek, SeekFrom, Write};
use ::std::path::{Path, PathBuf};

pub use ::std::fs::{exists, metadata, symlink_metadata, FileTimes, FileType, Metadata, Permissions, TryLockError};
use ::std::os::unix::fs::PermissionsExt;

fn s(p: &Path) -> String {
    p.to_string_lossy().to_string()
}
/// what `File::metadata` asks `hooks::statx` for
pub(crate) const FD_NAME: &str = "\x01fd:";
/// the directory the program runs in
pub const CWD: &str = "/work";
pub(crate) fn absolute(normalised: &str) -> String {
    if normalised.starts_with('/') { normalised.to_string() } else { format!("{CWD}/{normalised}").trim_end_matches('/').to_string() }
}
fn e<T>(r: Result<T, i32>) -> io::Result<T> {
    r.map_err(io::Error::from_raw_os_error)
}

#[derive(Debug)]
pub struct File {
    pub(crate) fd: usize,
    name: String,
}

#[derive(Clone, Debug)]
pub struct OpenOptions(pub(crate) OpenFlags);
impl OpenOptions {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        OpenOptions(OpenFlags::default())
    }
    pub fn read(&mut self, x: bool) -> &mut Self {
        self.0.read = x;
        self
    }
    pub fn write(&mut self, x: bool) -> &mut Self {
        self.0.write = x;
        self
    }
    pub fn append(&mut self, x: bool) -> &mut Self {
        self.0.append = x;
        self
    }
    pub fn truncate(&mut self, x: bool) -> &mut Self {
        self.0.truncate = x;
        self
    }
    pub fn create(&mut self, x: bool) -> &mut Self {
        self.0.create = x;
        self
    }
    pub fn create_new(&mut self, x: bool) -> &mut Self {
        self.0.create_new = x;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        let name = s(p.as_ref());
        let fd = e(call(|w| w.vfs_open(&name, &self.0)))?;
        Ok(File { fd, name })
    }
}

impl File {
    #[doc(hidden)]
    pub fn from_sim_fd(fd: usize, name: &str) -> File {
        File { fd, name: name.to_string() }
    }
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().read(true).open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(p)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().read(true).write(true).create_new(true).open(p)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn sync_all(&self) -> io::Result<()> {
        e(call(|w| w.vfs_sync(self.fd)))
    }
    pub fn sync_data(&self) -> io::Result<()> {
        self.sync_all()
    }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        e(call(|w| w.vfs_set_len(self.fd, n)))
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        // (see `hooks`)
        metadata(format!("{FD_NAME}{}", self.fd))
    }
    pub fn set_permissions(&self, p: Permissions) -> io::Result<()> {
        let r = call(|w| {
            let (kind, name) = match w.fds[self.fd].as_ref() {
                Some(f) => (f.kind.clone(), f.name.clone()),
                None => return Err(libc::EBADF),
            };
            if let Some(x) = w.fault(crate::rt::Op::Chmod, &name) {
                return Err(x);
            }
            if let crate::rt::FdKind::Inode(i) = kind {
                w.inodes[i].mode = p.mode() & 0o7777;
            }
            Ok(())
        });
        e(r)
    }
    pub fn try_clone(&self) -> io::Result<File> {
        let fd = e(call(|w| w.vfs_dup(self.fd)))?;
        Ok(File { fd, name: self.name.clone() })
    }
    pub(crate) fn at<R>(&self, pos: u64, f: impl FnOnce(&File) -> io::Result<R>) -> io::Result<R> {
        let mut me = self;
        let old = me.stream_position()?;
        me.seek(SeekFrom::Start(pos))?;
        let r = f(self);
        me.seek(SeekFrom::Start(old))?;
        r
    }
    pub fn lock(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn unlock(&self) -> io::Result<()> {
        Ok(())
    }
    fn rd(&self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(ns) = peek(|w| {
            let n = w.fds[self.fd].as_ref().map(|f| f.name.clone()).unwrap_or_default();
            w.delay(&n)
        }) {
            sleep_ns(ns);
        }
        e(op(|w| Step::Done(w.vfs_read(self.fd, buf))))
    }
    fn wr(&self, buf: &[u8]) -> io::Result<usize> {
        e(op(|w| Step::Done(w.vfs_write(self.fd, buf))))
    }
}
impl Drop for File {
    fn drop(&mut self) {
        if crate::rt::in_task() {
            call(|w| w.vfs_close(self.fd));
        }
    }
}
impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.rd(buf)
    }
}
impl Read for &File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.rd(buf)
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.wr(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.wr(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for File {
    fn seek(&mut self, from: SeekFrom) -> io::Result<u64> {
        e(call(|w| w.vfs_seek(self.fd, from)))
    }
}
impl Seek for &File {
    fn seek(&mut self, from: SeekFrom) -> io::Result<u64> {
        e(call(|w| w.vfs_seek(self.fd, from)))
    }
}

pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    let mut v = Vec::new();
    File::open(p)?.read_to_end(&mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    let mut v = String::new();
    File::open(p)?.read_to_string(&mut v)?;
    Ok(v)
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
    File::create(p)?.write_all(c.as_ref())
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<u64> {
    let mut a = File::open(p)?;
    let mut b = File::create(q)?;
    b.set_permissions(a.metadata()?.permissions())?;
    io::copy(&mut a, &mut b)
}
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<()> {
    let (a, b) = (s(p.as_ref()), s(q.as_ref()));
    e(call(|w| w.vfs_rename(&a, &b)))
}
pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let a = s(p.as_ref());
    e(call(|w| w.vfs_remove(&a)))
}
pub fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<()> {
    let (a, b) = (s(p.as_ref()), s(q.as_ref()));
    e(call(|w| w.vfs_link(&a, &b)))
}
pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let a = s(p.as_ref());
    e(call(|w| w.vfs_mkdir(&a, false)))
}
pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let a = s(p.as_ref());
    e(call(|w| w.vfs_mkdir(&a, true)))
}
pub fn remove_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let a = s(p.as_ref());
    e(call(|w| w.vfs_rmdir(&a)))
}
pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let a = norm(&s(p.as_ref()));
    let (files, mut dirs) = peek(|w| {
        let pre = format!("{a}/");
        let f: Vec<String> = w.names.keys().filter(|x| x.starts_with(&pre)).cloned().collect();
        let d: Vec<String> = w.dirs.iter().filter(|x| x.starts_with(&pre)).cloned().collect();
        (f, d)
    });
    for f in files {
        remove_file(f)?;
    }
    dirs.sort_by_key(|x| ::std::cmp::Reverse(x.len()));
    dirs.push(a);
    dirs.into_iter().try_for_each(remove_dir)
}
#[derive(Debug)]
pub struct DirEntry(PathBuf);
impl DirEntry {
    pub fn path(&self) -> PathBuf {
        self.0.clone()
    }
    pub fn file_name(&self) -> ::std::ffi::OsString {
        self.0.file_name().unwrap_or_default().to_os_string()
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        metadata(&self.0)
    }
    pub fn file_type(&self) -> io::Result<FileType> {
        Ok(self.metadata()?.file_type())
    }
}
pub type ReadDir = ::std::vec::IntoIter<io::Result<DirEntry>>;
pub fn read_dir<P: AsRef<Path>>(p: P) -> io::Result<ReadDir> {
    let raw = p.as_ref().to_path_buf();
    if !metadata(&raw)?.is_dir() {
        return Err(io::Error::from_raw_os_error(libc::ENOTDIR));
    }
    let a = norm(&s(&raw));
    let pre = if a.is_empty() || a == "." { String::new() } else if a.ends_with('/') { a } else { format!("{a}/") };
    let v: Vec<String> = peek(|w| {
        let all = w.names.keys().chain(w.dirs.iter());
        all.filter_map(|x| x.strip_prefix(&pre)).filter(|x| !x.is_empty() && *x != "." && !x.contains('/')).map(String::from).collect()
    });
    Ok(v.into_iter().map(|x| Ok(DirEntry(raw.join(x)))).collect::<Vec<_>>().into_iter())
}
#[derive(Debug, Default)]
pub struct DirBuilder(bool);
impl DirBuilder {
    pub fn new() -> Self {
        DirBuilder(false)
    }
    pub fn recursive(&mut self, x: bool) -> &mut Self {
        self.0 = x;
        self
    }
    pub fn create<P: AsRef<Path>>(&self, p: P) -> io::Result<()> {
        if self.0 { create_dir_all(p) } else { create_dir(p) }
    }
}
pub fn set_permissions<P: AsRef<Path>>(p: P, perm: Permissions) -> io::Result<()> {
    let a = s(p.as_ref());
    e(call(|w| w.vfs_chmod(&a, perm.mode())))
}
pub fn canonicalize<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> {
    let a = s(p.as_ref());
    e(call(|w| w.vfs_stat(&a)))?;
    Ok(PathBuf::from(absolute(&norm(&a))))
}
