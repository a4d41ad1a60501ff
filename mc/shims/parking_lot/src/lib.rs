//! Stand-in for `parking_lot` on the controlled runtime (no poisoning).
use mcrt::sync as s;
use std::ops::{Deref, DerefMut};

#[derive(Default)]
pub struct Mutex<T: ?Sized>(s::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized>(s::MutexGuard<'a, T>);
pub const fn const_mutex<T>(t: T) -> Mutex<T> {
    Mutex::new(t)
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex(s::Mutex::new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        MutexGuard(self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        match self.0.try_lock() {
            Ok(g) => Some(MutexGuard(g)),
            Err(s::TryLockError::Poisoned(e)) => Some(MutexGuard(e.into_inner())),
            Err(s::TryLockError::WouldBlock) => None,
        }
    }
    pub fn is_locked(&self) -> bool {
        self.try_lock().is_none()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
#[derive(Default)]
pub struct RwLock<T: ?Sized>(s::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized>(s::RwLockReadGuard<'a, T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(s::RwLockWriteGuard<'a, T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock(s::RwLock::new(t))
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        RwLockReadGuard(self.0.read().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        RwLockWriteGuard(self.0.write().unwrap_or_else(|e| e.into_inner()))
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
