//! `tempfile` as the simulated program sees it.
use simstd::fs::File;
use simstd::rt::{call, FdKind, Op, OpenFile};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};

/// an unnamed file
pub fn tempfile() -> io::Result<File> {
    let r = call(|w| {
        if let Some(e) = w.fault(Op::Create, "spool") {
            return Err(io::Error::from_raw_os_error(e));
        }
        let i = w.new_inode(0o600);
        w.event(Op::Create, "spool", 0, 0);
        Ok(w.alloc_fd(OpenFile {
            kind: FdKind::Inode(i),
            name: "spool".into(),
            pos: Default::default(),
            read: true,
            write: true,
            append: false,
        }))
    })?;
    Ok(File::from_sim_fd(r, "spool"))
}

#[derive(Debug)]
enum Data {
    Mem(Cursor<Vec<u8>>),
    Disk(File),
}
#[derive(Debug)]
pub struct SpooledTempFile {
    max: usize,
    d: Data,
}
pub fn spooled_tempfile(max: usize) -> SpooledTempFile {
    SpooledTempFile::new(max)
}
impl SpooledTempFile {
    pub fn new(max: usize) -> Self {
        SpooledTempFile { max, d: Data::Mem(Cursor::new(Vec::new())) }
    }
    pub fn is_rolled(&self) -> bool {
        matches!(self.d, Data::Disk(_))
    }
    pub fn roll(&mut self) -> io::Result<()> {
        if let Data::Mem(c) = &mut self.d {
            let mut f = tempfile()?;
            f.write_all(c.get_ref())?;
            f.seek(SeekFrom::Start(c.position()))?;
            self.d = Data::Disk(f);
        }
        Ok(())
    }
    pub fn set_len(&mut self, n: u64) -> io::Result<()> {
        if n as usize > self.max {
            self.roll()?;
        }
        match &mut self.d {
            Data::Mem(c) => {
                c.get_mut().resize(n as usize, 0);
                Ok(())
            }
            Data::Disk(f) => f.set_len(n),
        }
    }
}
impl Read for SpooledTempFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match &mut self.d {
            Data::Mem(c) => c.read(buf),
            Data::Disk(f) => f.read(buf),
        }
    }
}
impl Write for SpooledTempFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let roll = match &self.d {
            Data::Mem(c) => c.position() + buf.len() as u64 > self.max as u64,
            _ => false,
        };
        if roll {
            self.roll()?;
        }
        match &mut self.d {
            Data::Mem(c) => c.write(buf),
            Data::Disk(f) => f.write(buf),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for SpooledTempFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        match &mut self.d {
            Data::Mem(c) => c.seek(p),
            Data::Disk(f) => f.seek(p),
        }
    }
}

/// a named temporary file
#[derive(Debug)]
pub struct NamedTempFile {
    file: Option<File>,
    path: PathBuf,
    keep: bool,
}
#[derive(Debug)]
pub struct PersistError {
    pub error: io::Error,
    pub file: NamedTempFile,
}
impl std::fmt::Display for PersistError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "failed to persist temporary file: {}", self.error)
    }
}
impl std::error::Error for PersistError {}
impl From<PersistError> for io::Error {
    fn from(e: PersistError) -> Self {
        e.error
    }
}
pub struct Builder {
    prefix: String,
    suffix: String,
}
impl Default for Builder {
    fn default() -> Self {
        Self::new()
    }
}
impl Builder {
    pub fn new() -> Self {
        Builder { prefix: ".tmp".into(), suffix: String::new() }
    }
    pub fn prefix<S: AsRef<std::ffi::OsStr> + ?Sized>(&mut self, s: &S) -> &mut Self {
        self.prefix = s.as_ref().to_string_lossy().into();
        self
    }
    pub fn suffix<S: AsRef<std::ffi::OsStr> + ?Sized>(&mut self, s: &S) -> &mut Self {
        self.suffix = s.as_ref().to_string_lossy().into();
        self
    }
    pub fn tempfile(&self) -> io::Result<NamedTempFile> {
        self.tempfile_in("/tmp")
    }
    pub fn tempfile_in<P: AsRef<Path>>(&self, dir: P) -> io::Result<NamedTempFile> {
        for _ in 0..1000 {
            let x = call(|w| w.misc.next());
            let path = dir.as_ref().join(format!("{}{:06x}{}", self.prefix, x & 0xff_ffff, self.suffix));
            match File::create_new(&path) {
                Ok(f) => return Ok(NamedTempFile { file: Some(f), path, keep: false }),
                Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {}
                Err(e) => return Err(e),
            }
        }
        Err(io::Error::from(io::ErrorKind::AlreadyExists))
    }
}
impl NamedTempFile {
    pub fn new() -> io::Result<Self> {
        Builder::new().tempfile()
    }
    pub fn new_in<P: AsRef<Path>>(dir: P) -> io::Result<Self> {
        Builder::new().tempfile_in(dir)
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn as_file(&self) -> &File {
        self.file.as_ref().unwrap()
    }
    pub fn as_file_mut(&mut self) -> &mut File {
        self.file.as_mut().unwrap()
    }
    pub fn persist<P: AsRef<Path>>(mut self, p: P) -> Result<File, PersistError> {
        match simstd::fs::rename(&self.path, p) {
            Ok(()) => {
                self.keep = true;
                Ok(self.file.take().unwrap())
            }
            Err(error) => Err(PersistError { error, file: self }),
        }
    }
    pub fn close(mut self) -> io::Result<()> {
        self.keep = true;
        simstd::fs::remove_file(&self.path)
    }
    pub fn keep(mut self) -> Result<(File, PathBuf), PersistError> {
        self.keep = true;
        Ok((self.file.take().unwrap(), self.path.clone()))
    }
    pub fn reopen(&self) -> io::Result<File> {
        simstd::fs::OpenOptions::new().read(true).write(true).open(&self.path)
    }
}
impl Drop for NamedTempFile {
    fn drop(&mut self) {
        if !self.keep && simstd::rt::in_task() {
            let _ = simstd::fs::remove_file(&self.path);
        }
    }
}
impl Read for NamedTempFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.as_file_mut().read(buf)
    }
}
impl Write for NamedTempFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.as_file_mut().write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for NamedTempFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.as_file_mut().seek(p)
    }
}
