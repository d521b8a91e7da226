//! The simulated file system and descriptors.
use crate::rt::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
pub struct OpenFlags {
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub truncate: bool,
    pub create: bool,
    pub create_new: bool,
    pub mode: u32,
}

fn parent(p: &str) -> &str {
    p.rsplit_once('/').map_or("", |(d, _)| d)
}

impl World {
    pub fn alloc_fd(&mut self, f: OpenFile) -> usize {
        if let Some(i) = self.fds.iter().position(|x| x.is_none()) {
            self.fds[i] = Some(f);
            i
        } else {
            self.fds.push(Some(f));
            self.fds.len() - 1
        }
    }

    pub fn vfs_open(&mut self, path: &str, fl: &OpenFlags) -> Result<usize, i32> {
        let name = norm(path);
        let writing = fl.write || fl.append;
        let op = if writing { Op::Create } else { Op::Open };
        if let Some(e) = self.fault(op, &name) {
            return Err(e);
        }
        let r = self.vfs_open_impl(&name, path, fl);
        self.event(op, &name, fl.create as u64 + 2 * fl.truncate as u64, r.map_or_else(|e| -(e as i64), |x| x as i64));
        r
    }

    fn vfs_open_impl(&mut self, name: &str, raw: &str, fl: &OpenFlags) -> Result<usize, i32> {
        if raw.is_empty() {
            return Err(libc::ENOENT);
        }
        if !fl.read && !fl.write && !fl.append {
            return Err(libc::EINVAL);
        }
        let writing = fl.write || fl.append;
        if !writing && (fl.truncate || fl.create || fl.create_new) || (fl.append && fl.truncate && !fl.create_new) {
            return Err(libc::EINVAL);
        }
        let kind = match name {
            "/dev/null" => Some(FdKind::Null),
            "/dev/full" => Some(FdKind::Full),
            "/dev/stdin" | "/dev/fd/0" | "/proc/self/fd/0" => Some(FdKind::Stdin),
            "/dev/stdout" | "/dev/fd/1" | "/proc/self/fd/1" => Some(FdKind::Stdout),
            "/dev/stderr" | "/dev/fd/2" => Some(FdKind::Stderr),
            _ => None,
        };
        let kind = match kind {
            Some(k) => k,
            None if self.dirs.contains(name) => {
                if writing {
                    return Err(libc::EISDIR);
                }
                FdKind::Dir(name.to_string())
            }
            None => match self.names.get(name).copied() {
                Some(_) if fl.create_new => return Err(libc::EEXIST),
                Some(i) => {
                    if self.inodes[i].mode & 0o200 == 0 && writing {
                        return Err(libc::EACCES);
                    }
                    if fl.truncate && !self.inodes[i].endless {
                        let freed = self.inodes[i].data.len() as u64;
                        if let Some(d) = &mut self.disk_free {
                            *d += freed;
                        }
                        self.inodes[i].data.clear();
                        self.inodes[i].log.push((u64::MAX, Vec::new()));
                    }
                    FdKind::Inode(i)
                }
                None => {
                    if !fl.create && !fl.create_new {
                        return Err(libc::ENOENT);
                    }
                    if raw.ends_with('/') {
                        return Err(libc::EISDIR);
                    }
                    if !self.dirs.contains(parent(name)) {
                        return Err(libc::ENOENT);
                    }
                    let i = self.new_inode(if fl.mode == 0 { 0o644 } else { fl.mode & 0o7777 & !0o022 });
                    self.inodes[i].nlink = 1;
                    self.names.insert(name.to_string(), i);
                    self.dirlog.push(DirOp::Link(name.to_string(), i));
                    FdKind::Inode(i)
                }
            },
        };
        Ok(self.alloc_fd(OpenFile {
            kind,
            name: name.to_string(),
            pos: Arc::new(Mutex::new(0)),
            read: fl.read,
            write: writing,
            append: fl.append,
        }))
    }

    pub fn new_inode(&mut self, mode: u32) -> usize {
        self.inodes.push(Inode { mode, ..Default::default() });
        self.inodes.len() - 1
    }

    /// reads from a plain byte source at `pos`; Ok(n)
    fn read_inode(&mut self, i: usize, pos: u64, buf: &mut [u8], n: usize) -> usize {
        let ino = &self.inodes[i];
        if ino.endless {
            if ino.data.is_empty() {
                return 0;
            }
            for (k, b) in buf[..n].iter_mut().enumerate() {
                *b = ino.data[((pos + k as u64) % ino.data.len() as u64) as usize];
            }
            return n;
        }
        let len = ino.data.len() as u64;
        if pos >= len {
            return 0;
        }
        let n = std::cmp::min(n as u64, len - pos) as usize;
        buf[..n].copy_from_slice(&ino.data[pos as usize..pos as usize + n]);
        n
    }

    pub fn stdin_read(&mut self, buf: &mut [u8]) -> Result<usize, i32> {
        if let Some(e) = self.fault(Op::Read, "stdin") {
            return Err(e);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.deliver("stdin", buf.len())?;
        let pos = self.stdin_pos;
        let n = match &self.cfg.stdin {
            None => 0,
            Some(f) => {
                if f.endless && !f.data.is_empty() {
                    for (k, b) in buf[..n].iter_mut().enumerate() {
                        *b = f.data[((pos + k as u64) % f.data.len() as u64) as usize];
                    }
                    n
                } else {
                    let rest = &f.data[std::cmp::min(pos as usize, f.data.len())..];
                    let n = std::cmp::min(n, rest.len());
                    buf[..n].copy_from_slice(&rest[..n]);
                    n
                }
            }
        };
        self.stdin_pos += n as u64;
        if self.watch.is_empty() || self.watch.iter().any(|x| x == "stdin") {
            self.stats.in_total += n as u64;
        }
        self.event(Op::Read, "stdin", pos, n as i64);
        Ok(n)
    }

    pub fn vfs_read(&mut self, fd: usize, buf: &mut [u8]) -> Result<usize, i32> {
        let (kind, name, posref, read) = match self.fds.get(fd).and_then(|x| x.as_ref()) {
            Some(f) => (f.kind.clone(), f.name.clone(), Arc::clone(&f.pos), f.read),
            None => return Err(libc::EBADF),
        };
        if !read {
            return Err(libc::EBADF);
        }
        let i = match kind {
            FdKind::Stdin => return self.stdin_read(buf),
            FdKind::Null => return Ok(0),
            FdKind::Full => {
                buf.fill(0);
                return Ok(buf.len());
            }
            FdKind::Dir(_) => return Err(libc::EISDIR),
            FdKind::Stdout | FdKind::Stderr => return Err(libc::EBADF),
            FdKind::Inode(i) => i,
        };
        if let Some(e) = self.fault(Op::Read, &name) {
            return Err(e);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.deliver(&name, buf.len())?;
        let pos = *posref.lock().unwrap();
        let n = self.read_inode(i, pos, buf, n);
        *posref.lock().unwrap() = pos + n as u64;
        if self.watch.is_empty() || self.watch.contains(&name) {
            self.stats.in_total += n as u64;
        }
        self.event(Op::Read, &name, pos, n as i64);
        Ok(n)
    }

    pub fn stdout_write(&mut self, buf: &[u8]) -> Result<usize, i32> {
        if let Some(e) = self.fault(Op::Write, "stdout") {
            return write_fault(e);
        }
        if self.stdout_closed {
            self.event(Op::Write, "stdout", self.stats.out_total, -(libc::EPIPE as i64));
            return Err(libc::EPIPE);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = self.deliver("w:stdout", buf.len())?;
        if let Some(limit) = self.cfg.stdout_close_after {
            let room = (limit - std::cmp::min(limit, self.stdout.len() as u64)) as usize;
            if room <= n {
                n = room;
                self.stdout_closed = true;
            }
            if n == 0 {
                return Err(libc::EPIPE);
            }
        }
        self.stdout.extend_from_slice(&buf[..n]);
        self.stats.out_total += n as u64;
        if self.keep_io_log {
            let e = (self.stats.out_total, self.stats.in_total);
            self.stats.io_log.push(e);
        }
        self.event(Op::Write, "stdout", hash_bytes(&buf[..n]), n as i64);
        Ok(n)
    }

    /// takes up to n bytes of disk space
    fn take_disk(&mut self, n: usize) -> Result<usize, i32> {
        match &mut self.disk_free {
            None => Ok(n),
            Some(0) => Err(libc::ENOSPC),
            Some(d) => {
                let k = std::cmp::min(*d, n as u64);
                *d -= k;
                Ok(k as usize)
            }
        }
    }

    pub fn write_inode(&mut self, i: usize, pos: u64, buf: &[u8]) -> Result<usize, i32> {
        let len = self.inodes[i].data.len() as u64;
        let end = pos + buf.len() as u64;
        let mut n = buf.len();
        if end > len {
            let grow = (end - len) as usize;
            let got = match self.take_disk(grow) {
                Ok(g) => g,
                Err(e) => {
                    self.stats.faults_fired.push(("disk".into(), Op::Write, e));
                    return Err(e);
                }
            };
            n -= grow - got;
            if n == 0 {
                return Err(libc::ENOSPC);
            }
        }
        let ino = &mut self.inodes[i];
        let end = pos as usize + n;
        if ino.data.len() < end {
            ino.data.resize(end, 0);
        }
        ino.data[pos as usize..end].copy_from_slice(&buf[..n]);
        ino.log.push((pos, buf[..n].to_vec()));
        Ok(n)
    }

    pub fn vfs_write(&mut self, fd: usize, buf: &[u8]) -> Result<usize, i32> {
        let (kind, name, posref, write, append) = match self.fds.get(fd).and_then(|x| x.as_ref()) {
            Some(f) => (f.kind.clone(), f.name.clone(), Arc::clone(&f.pos), f.write, f.append),
            None => return Err(libc::EBADF),
        };
        if !write {
            return Err(libc::EBADF);
        }
        let i = match kind {
            FdKind::Stdout => return self.stdout_write(buf),
            FdKind::Stderr => {
                self.stderr.extend_from_slice(buf);
                return Ok(buf.len());
            }
            FdKind::Null => {
                return match self.fault(Op::Write, &name) {
                    Some(e) => write_fault(e),
                    None => Ok(buf.len()),
                }
            }
            FdKind::Full => return Err(libc::ENOSPC),
            FdKind::Dir(_) | FdKind::Stdin => return Err(libc::EBADF),
            FdKind::Inode(i) => i,
        };
        if let Some(e) = self.fault(Op::Write, &name) {
            return write_fault(e);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.deliver(&format!("w:{name}"), buf.len())?;
        let pos = if append { self.inodes[i].data.len() as u64 } else { *posref.lock().unwrap() };
        let n = self.write_inode(i, pos, &buf[..n])?;
        *posref.lock().unwrap() = pos + n as u64;
        self.event(Op::Write, &name, pos, n as i64);
        Ok(n)
    }

    pub fn vfs_seek(&mut self, fd: usize, from: std::io::SeekFrom) -> Result<u64, i32> {
        let (kind, name, posref) = match self.fds.get(fd).and_then(|x| x.as_ref()) {
            Some(f) => (f.kind.clone(), f.name.clone(), Arc::clone(&f.pos)),
            None => return Err(libc::EBADF),
        };
        if let Some(e) = self.fault(Op::Seek, &name) {
            return Err(e);
        }
        let i = match kind {
            FdKind::Inode(i) if !self.inodes[i].endless => i,
            FdKind::Null => return Ok(0),
            _ => return Err(libc::ESPIPE),
        };
        let cur = *posref.lock().unwrap() as i64;
        let p = match from {
            std::io::SeekFrom::Start(x) => x as i64,
            std::io::SeekFrom::End(x) => self.inodes[i].data.len() as i64 + x,
            std::io::SeekFrom::Current(x) => cur + x,
        };
        if p < 0 {
            return Err(libc::EINVAL);
        }
        *posref.lock().unwrap() = p as u64;
        self.event(Op::Seek, &name, p as u64, 0);
        Ok(p as u64)
    }

    pub fn vfs_sync(&mut self, fd: usize) -> Result<(), i32> {
        let (kind, name) = match self.fds.get(fd).and_then(|x| x.as_ref()) {
            Some(f) => (f.kind.clone(), f.name.clone()),
            None => return Err(libc::EBADF),
        };
        if let Some(e) = self.fault(Op::Sync, &name) {
            return Err(e);
        }
        match kind {
            FdKind::Inode(i) => {
                let ino = &mut self.inodes[i];
                ino.synced = Some(ino.data.clone());
                ino.log.clear();
            }
            FdKind::Dir(_) => self.dirlog_synced = self.dirlog.len(),
            _ => return Err(libc::EINVAL),
        }
        self.event(Op::Sync, &name, 0, 0);
        Ok(())
    }

    pub fn vfs_set_len(&mut self, fd: usize, len: u64) -> Result<(), i32> {
        let (kind, name) = match self.fds.get(fd).and_then(|x| x.as_ref()) {
            Some(f) => (f.kind.clone(), f.name.clone()),
            None => return Err(libc::EBADF),
        };
        if let Some(e) = self.fault(Op::SetLen, &name) {
            return Err(e);
        }
        if let FdKind::Inode(i) = kind {
            self.inodes[i].data.resize(len as usize, 0);
            self.inodes[i].log.push((u64::MAX, len.to_le_bytes().to_vec()));
        }
        self.event(Op::SetLen, &name, len, 0);
        Ok(())
    }

    pub fn vfs_close(&mut self, fd: usize) {
        if let Some(x) = self.fds.get_mut(fd) {
            *x = None;
        }
    }

    pub fn vfs_dup(&mut self, fd: usize) -> Result<usize, i32> {
        let f = match self.fds.get(fd).and_then(|x| x.as_ref()) {
            Some(f) => OpenFile {
                kind: f.kind.clone(),
                name: f.name.clone(),
                pos: Arc::clone(&f.pos),
                read: f.read,
                write: f.write,
                append: f.append,
            },
            None => return Err(libc::EBADF),
        };
        Ok(self.alloc_fd(f))
    }

    pub fn vfs_rename(&mut self, from: &str, to: &str) -> Result<(), i32> {
        let (from, to) = (norm(from), norm(to));
        if let Some(e) = self.fault(Op::Rename, &to) {
            return Err(e);
        }
        let i = match self.names.get(&from).copied() {
            Some(i) => i,
            None => return Err(libc::ENOENT),
        };
        if self.dirs.contains(&to) {
            return Err(libc::EISDIR);
        }
        if !self.dirs.contains(parent(&to)) {
            return Err(libc::ENOENT);
        }
        if from != to {
            self.names.remove(&from);
            if let Some(old) = self.names.insert(to.clone(), i) {
                self.unlink_inode(old);
            }
            self.dirlog.push(DirOp::Rename(from.clone(), to.clone()));
        }
        self.event(Op::Rename, &to, hash_str(&from), 0);
        Ok(())
    }

    fn unlink_inode(&mut self, i: usize) {
        self.inodes[i].nlink -= 1;
        if self.inodes[i].nlink == 0 {
            let n = self.inodes[i].data.len() as u64;
            if let Some(d) = &mut self.disk_free {
                *d += n;
            }
        }
    }

    pub fn vfs_remove(&mut self, path: &str) -> Result<(), i32> {
        let p = norm(path);
        if let Some(e) = self.fault(Op::Remove, &p) {
            return Err(e);
        }
        if self.dirs.contains(&p) {
            return Err(libc::EISDIR);
        }
        match self.names.remove(&p) {
            Some(i) => {
                self.unlink_inode(i);
                self.dirlog.push(DirOp::Unlink(p.clone()));
                self.event(Op::Remove, &p, 0, 0);
                Ok(())
            }
            None => Err(libc::ENOENT),
        }
    }

    pub fn vfs_link(&mut self, from: &str, to: &str) -> Result<(), i32> {
        let (from, to) = (norm(from), norm(to));
        if let Some(e) = self.fault(Op::Create, &to) {
            return Err(e);
        }
        let i = *self.names.get(&from).ok_or(libc::ENOENT)?;
        if self.names.contains_key(&to) || self.dirs.contains(&to) {
            return Err(libc::EEXIST);
        }
        self.inodes[i].nlink += 1;
        self.names.insert(to.clone(), i);
        self.dirlog.push(DirOp::Link(to.clone(), i));
        self.event(Op::Create, &to, i as u64, 0);
        Ok(())
    }

    pub fn vfs_mkdir(&mut self, path: &str, all: bool) -> Result<(), i32> {
        let p = norm(path);
        if let Some(e) = self.fault(Op::Mkdir, &p) {
            return Err(e);
        }
        if all {
            let mut cur = String::new();
            for c in p.split('/') {
                if !cur.is_empty() {
                    cur.push('/');
                }
                cur.push_str(c);
                if self.names.contains_key(&cur) {
                    return Err(libc::EEXIST);
                }
                self.dirs.insert(cur.clone());
            }
        } else {
            if self.names.contains_key(&p) || self.dirs.contains(&p) {
                return Err(libc::EEXIST);
            }
            if !self.dirs.contains(parent(&p)) {
                return Err(libc::ENOENT);
            }
            self.dirs.insert(p.clone());
        }
        self.event(Op::Mkdir, &p, 0, 0);
        Ok(())
    }

    pub fn vfs_rmdir(&mut self, path: &str) -> Result<(), i32> {
        let p = norm(path);
        if let Some(e) = self.fault(Op::Remove, &p) {
            return Err(e);
        }
        if !self.dirs.contains(&p) {
            return Err(if self.names.contains_key(&p) { libc::ENOTDIR } else { libc::ENOENT });
        }
        let pre = format!("{p}/");
        if self.names.keys().chain(self.dirs.iter()).any(|x| x.starts_with(&pre)) {
            return Err(libc::ENOTEMPTY);
        }
        self.dirs.remove(&p);
        Ok(())
    }

    /// (len, is_dir, mode, kind)
    pub fn vfs_stat(&mut self, path: &str) -> Result<(u64, bool, u32, usize), i32> {
        let p = norm(path);
        if let Some(e) = self.fault(Op::Stat, &p) {
            return Err(e);
        }
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if p.starts_with("/dev/") {
            return Ok((0, false, 0o666, usize::MAX));
        }
        if self.dirs.contains(&p) {
            return Ok((4096, true, 0o755, usize::MAX));
        }
        match self.names.get(&p) {
            Some(&i) => Ok((self.inodes[i].data.len() as u64, false, self.inodes[i].mode, i)),
            None => Err(libc::ENOENT),
        }
    }

    pub fn vfs_fstat(&mut self, fd: usize) -> Result<(u64, bool, u32, usize), i32> {
        match self.fds.get(fd).and_then(|x| x.as_ref()).map(|f| f.kind.clone()) {
            Some(FdKind::Inode(i)) => Ok((self.inodes[i].data.len() as u64, false, self.inodes[i].mode, i)),
            Some(FdKind::Dir(_)) => Ok((4096, true, 0o755, usize::MAX)),
            Some(_) => Ok((0, false, 0o666, usize::MAX)),
            None => Err(libc::EBADF),
        }
    }

    pub fn vfs_chmod(&mut self, path: &str, mode: u32) -> Result<(), i32> {
        let p = norm(path);
        if let Some(e) = self.fault(Op::Chmod, &p) {
            return Err(e);
        }
        let i = *self.names.get(&p).ok_or(libc::ENOENT)?;
        self.inodes[i].mode = mode & 0o7777;
        Ok(())
    }

    /// the files as they are now (volatile view)
    pub fn snapshot(&self) -> std::collections::BTreeMap<String, Vec<u8>> {
        self.names.iter().map(|(n, &i)| (n.clone(), self.inodes[i].data.clone())).collect()
    }

    /// possible contents of the disk after a power loss now: every prefix of the unsynced directory operations, with
    /// unsynced file data (a) lost, (b) kept, (c) present in size only, (d) cut in the middle of the write log
    pub fn durable_views(&self) -> Vec<(String, std::collections::BTreeMap<String, Vec<u8>>)> {
        let mut v = Vec::new();
        for p in self.dirlog_synced..=self.dirlog.len() {
            let mut names = self.initial.clone();
            for d in &self.dirlog[..p] {
                match d {
                    DirOp::Link(n, i) => {
                        names.insert(n.clone(), *i);
                    }
                    DirOp::Unlink(n) => {
                        names.remove(n);
                    }
                    DirOp::Rename(a, b) => {
                        if let Some(i) = names.remove(a) {
                            names.insert(b.clone(), i);
                        }
                    }
                }
            }
            for mode in ["lost", "kept", "zero", "half"] {
                let m = names.iter().map(|(n, &i)| (n.clone(), self.durable_data(i, mode))).collect();
                v.push((format!("dirops={p}/{} unsynced-data={mode}", self.dirlog.len()), m));
            }
        }
        v
    }

    fn durable_data(&self, i: usize, mode: &str) -> Vec<u8> {
        let ino = &self.inodes[i];
        let base = ino.synced.clone().unwrap_or_default();
        if ino.log.is_empty() {
            return base;
        }
        match mode {
            "lost" => base,
            "kept" => ino.data.clone(),
            "zero" => vec![0; ino.data.len()],
            _ => {
                let mut d = base;
                let half = (ino.log.len() + 1) / 2;
                for (k, (pos, data)) in ino.log[..half].iter().enumerate() {
                    if *pos == u64::MAX {
                        let l = if data.is_empty() { 0 } else { u64::from_le_bytes(data[..8].try_into().unwrap()) };
                        d.resize(l as usize, 0);
                        continue;
                    }
                    let n = if k + 1 == half { data.len() / 2 } else { data.len() };
                    let end = *pos as usize + n;
                    if d.len() < end {
                        d.resize(end, 0);
                    }
                    d[*pos as usize..end].copy_from_slice(&data[..n]);
                }
                d
            }
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(27);
    }
    h
}

/// errno 0 stands for a write that takes nothing
pub fn write_fault(e: i32) -> Result<usize, i32> {
    if e == 0 {
        Ok(0)
    } else {
        Err(e)
    }
}
