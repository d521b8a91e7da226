pub use ::std::env::*;
use crate::rt::peek;
use ::std::ffi::{OsStr, OsString};

pub type ArgsOs = ::std::vec::IntoIter<OsString>;
pub type Args = ::std::vec::IntoIter<String>;

pub fn args_os() -> ArgsOs {
    peek(|w| w.cfg.args.iter().map(OsString::from).collect::<Vec<_>>()).into_iter()
}
pub fn args() -> Args {
    peek(|w| w.cfg.args.clone()).into_iter()
}
pub fn var<K: AsRef<OsStr>>(key: K) -> Result<String, VarError> {
    let k = key.as_ref().to_string_lossy().to_string();
    peek(|w| w.cfg.env.iter().find(|x| x.0 == k).map(|x| x.1.clone())).ok_or(VarError::NotPresent)
}
pub fn var_os<K: AsRef<OsStr>>(key: K) -> Option<OsString> {
    var(key).ok().map(OsString::from)
}
pub fn vars() -> ::std::vec::IntoIter<(String, String)> {
    peek(|w| w.cfg.env.clone()).into_iter()
}
pub fn current_dir() -> ::std::io::Result<::std::path::PathBuf> {
    Ok(crate::fs::CWD.into())
}
pub fn temp_dir() -> ::std::path::PathBuf {
    "/tmp".into()
}
