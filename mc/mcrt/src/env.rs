//! Simulated environment variables.
pub use ::std::env::*;
use crate::rt::world;
use std::ffi::{OsStr, OsString};
pub fn var<K: AsRef<OsStr>>(k: K) -> Result<String, VarError> {
    let k = k.as_ref().to_string_lossy().to_string();
    world().env.get(&k).cloned().ok_or(VarError::NotPresent)
}
pub fn var_os<K: AsRef<OsStr>>(k: K) -> Option<OsString> {
    var(k).ok().map(OsString::from)
}
/// # Safety
/// As in std; nothing can go wrong here.
pub unsafe fn set_var<K: AsRef<OsStr>, V: AsRef<OsStr>>(k: K, v: V) {
    world().env.insert(
        k.as_ref().to_string_lossy().to_string(),
        v.as_ref().to_string_lossy().to_string(),
    );
}
/// # Safety
/// As in std; nothing can go wrong here.
pub unsafe fn remove_var<K: AsRef<OsStr>>(k: K) {
    world().env.remove(&k.as_ref().to_string_lossy().to_string());
}
