pub use ::std::os::*;

pub mod fd {
    pub use ::std::os::fd::*;
}
pub mod unix {
    pub use ::std::os::unix::*;
    pub mod fs {
        pub use ::std::os::unix::fs::*;
        use crate::fs::OpenOptions;
        pub trait FileExt {
            fn read_at(&self, buf: &mut [u8], pos: u64) -> ::std::io::Result<usize>;
            fn write_at(&self, buf: &[u8], pos: u64) -> ::std::io::Result<usize>;
            fn read_exact_at(&self, mut buf: &mut [u8], mut pos: u64) -> ::std::io::Result<()> {
                while !buf.is_empty() {
                    match self.read_at(buf, pos) {
                        Ok(0) => return Err(::std::io::ErrorKind::UnexpectedEof.into()),
                        Ok(n) => {
                            buf = &mut buf[n..];
                            pos += n as u64;
                        }
                        Err(e) if e.kind() == ::std::io::ErrorKind::Interrupted => {}
                        Err(e) => return Err(e),
                    }
                }
                Ok(())
            }
            fn write_all_at(&self, mut buf: &[u8], mut pos: u64) -> ::std::io::Result<()> {
                while !buf.is_empty() {
                    match self.write_at(buf, pos) {
                        Ok(0) => return Err(::std::io::ErrorKind::WriteZero.into()),
                        Ok(n) => {
                            buf = &buf[n..];
                            pos += n as u64;
                        }
                        Err(e) if e.kind() == ::std::io::ErrorKind::Interrupted => {}
                        Err(e) => return Err(e),
                    }
                }
                Ok(())
            }
        }
        impl FileExt for crate::fs::File {
            fn read_at(&self, buf: &mut [u8], pos: u64) -> ::std::io::Result<usize> {
                use ::std::io::Read;
                self.at(pos, |mut f| f.read(buf))
            }
            fn write_at(&self, buf: &[u8], pos: u64) -> ::std::io::Result<usize> {
                use ::std::io::Write;
                self.at(pos, |mut f| f.write(buf))
            }
        }
        pub trait OpenOptionsExt {
            fn mode(&mut self, mode: u32) -> &mut Self;
            fn custom_flags(&mut self, flags: i32) -> &mut Self;
        }
        impl OpenOptionsExt for OpenOptions {
            fn mode(&mut self, mode: u32) -> &mut Self {
                self.0.mode = mode;
                self
            }
            fn custom_flags(&mut self, _: i32) -> &mut Self {
                self
            }
        }
    }
}
