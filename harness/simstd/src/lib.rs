//! `std` as the simulated program sees it: the real one, with everything nondeterministic replaced.
pub use ::std::*;

pub mod prog;
pub mod rt;
pub mod vfs;

pub mod env;
pub mod fs;
pub mod hint;
pub mod hooks;
pub mod io;
pub mod os;
pub mod process;
pub mod sync;
pub mod thread;
pub mod time;

#[macro_export]
macro_rules! print {
    ($($arg:tt)*) => { $crate::io::_print(::core::format_args!($($arg)*)) };
}
#[macro_export]
macro_rules! println {
    () => { $crate::io::_print(::core::format_args!("\n")) };
    ($($arg:tt)*) => { $crate::io::_println(::core::format_args!($($arg)*)) };
}
#[macro_export]
macro_rules! eprint {
    ($($arg:tt)*) => { $crate::io::_eprint(::core::format_args!($($arg)*)) };
}
#[macro_export]
macro_rules! eprintln {
    () => { $crate::io::_eprint(::core::format_args!("\n")) };
    ($($arg:tt)*) => { $crate::io::_eprintln(::core::format_args!($($arg)*)) };
}

/// the block size of a build variant
pub const fn sim_usize(s: &str) -> usize {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = 0usize;
    while i < b.len() {
        assert!(b[i] >= b'0' && b[i] <= b'9');
        v = v * 10 + (b[i] - b'0') as usize;
        i += 1;
    }
    v
}

/// bytes as text in replay files: printable ASCII as is, anything else in hex
pub mod bytes_serde {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        if v.iter().all(|&b| (0x20..0x7f).contains(&b) || b == b'\n') {
            s.serialize_str(&format!("t:{}", ::std::str::from_utf8(v).unwrap()))
        } else {
            let mut t = String::with_capacity(2 + 2 * v.len());
            t.push_str("x:");
            for b in v {
                t.push_str(&format!("{b:02x}"));
            }
            s.serialize_str(&t)
        }
    }
    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(t) = s.strip_prefix("t:") {
            return Ok(t.as_bytes().to_vec());
        }
        let t = s.strip_prefix("x:").ok_or_else(|| serde::de::Error::custom("bad bytes"))?;
        (0..t.len() / 2)
            .map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
            .collect()
    }
}
