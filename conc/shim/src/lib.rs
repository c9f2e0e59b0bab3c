//! parking_lot's locks on top of shuttle's, so that shuttle's scheduler decides every interleaving.
use std::ops::{Deref, DerefMut};

pub struct Mutex<T: ?Sized>(shuttle::sync::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized>(shuttle::sync::MutexGuard<'a, T>);

impl<T> Mutex<T> {
  pub fn new(v: T) -> Self {
    Mutex(shuttle::sync::Mutex::new(v))
  }
  pub fn into_inner(self) -> T {
    self.0.into_inner().unwrap()
  }
}
impl<T: ?Sized> Mutex<T> {
  pub fn lock(&self) -> MutexGuard<'_, T> {
    MutexGuard(self.0.lock().unwrap_or_else(|e| e.into_inner()))
  }
  pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
    self.0.try_lock().ok().map(MutexGuard)
  }
  pub fn get_mut(&mut self) -> &mut T {
    self.0.get_mut().unwrap()
  }
}
impl<T: Default> Default for Mutex<T> {
  fn default() -> Self {
    Mutex::new(T::default())
  }
}
impl<T> From<T> for Mutex<T> {
  fn from(v: T) -> Self {
    Mutex::new(v)
  }
}
impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("Mutex")
  }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    &self.0
  }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    &mut self.0
  }
}

pub struct RwLock<T: ?Sized>(shuttle::sync::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized>(shuttle::sync::RwLockReadGuard<'a, T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(shuttle::sync::RwLockWriteGuard<'a, T>);
impl<T> RwLock<T> {
  pub fn new(v: T) -> Self {
    RwLock(shuttle::sync::RwLock::new(v))
  }
}
impl<T: ?Sized> RwLock<T> {
  pub fn read(&self) -> RwLockReadGuard<'_, T> {
    RwLockReadGuard(self.0.read().unwrap_or_else(|e| e.into_inner()))
  }
  pub fn write(&self) -> RwLockWriteGuard<'_, T> {
    RwLockWriteGuard(self.0.write().unwrap_or_else(|e| e.into_inner()))
  }
}
impl<T: Default> Default for RwLock<T> {
  fn default() -> Self {
    RwLock::new(T::default())
  }
}
impl<T: ?Sized> std::fmt::Debug for RwLock<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("RwLock")
  }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    &self.0
  }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    &self.0
  }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    &mut self.0
  }
}

pub struct Condvar(shuttle::sync::Condvar);
impl Condvar {
  pub fn new() -> Self {
    Condvar(shuttle::sync::Condvar::new())
  }
  pub fn notify_one(&self) -> bool {
    self.0.notify_one();
    true
  }
  pub fn notify_all(&self) -> usize {
    self.0.notify_all();
    1
  }
}
impl Default for Condvar {
  fn default() -> Self {
    Self::new()
  }
}
