//! Type-check stand-in for futures-locks.
use std::{cell::UnsafeCell, future::Future, ops::{Deref, DerefMut}, pin::Pin, sync::Arc, task::{Context, Poll}};
#[derive(Clone, Copy, Debug, Eq, PartialEq)] pub struct TryLockError;
#[derive(Debug)] struct C<T: ?Sized>(UnsafeCell<T>);
unsafe impl<T: ?Sized + Send> Send for C<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for C<T> {}
#[derive(Debug)] pub struct RwLock<T: ?Sized>(Arc<C<T>>);
#[derive(Debug)] pub struct Mutex<T: ?Sized>(Arc<C<T>>);
macro_rules! guard { ($g:ident, $f:ident) => {
    #[derive(Debug)] pub struct $g<T: ?Sized>(Arc<C<T>>);
    impl<T: ?Sized> Drop for $g<T> { fn drop(&mut self) {} }
    impl<T: ?Sized> Deref for $g<T> { type Target = T; fn deref(&self) -> &T { loop {} } }
    pub struct $f<T: ?Sized>(#[allow(dead_code)] Arc<C<T>>);
    impl<T: ?Sized> Drop for $f<T> { fn drop(&mut self) {} }
    impl<T: ?Sized> Future for $f<T> { type Output = $g<T>; fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> { loop {} } }
}}
guard!(RwLockReadGuard, RwLockReadFut); guard!(RwLockWriteGuard, RwLockWriteFut); guard!(MutexGuard, MutexFut);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<T> { fn deref_mut(&mut self) -> &mut T { loop {} } }
impl<T: ?Sized> DerefMut for MutexGuard<T> { fn deref_mut(&mut self) -> &mut T { loop {} } }
impl<T: ?Sized> Clone for RwLock<T> { fn clone(&self) -> Self { Self(self.0.clone()) } }
impl<T: ?Sized> Clone for Mutex<T> { fn clone(&self) -> Self { Self(self.0.clone()) } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { loop {} } }
impl<T: Default> Default for Mutex<T> { fn default() -> Self { loop {} } }
impl<T> RwLock<T> {
    pub fn new(t: T) -> Self { Self(Arc::new(C(UnsafeCell::new(t)))) }
    pub fn try_unwrap(self) -> Result<T, RwLock<T>> { loop {} }
}
impl<T: ?Sized> RwLock<T> {
    pub fn get_mut(&mut self) -> Option<&mut T> { loop {} }
    pub fn read(&self) -> RwLockReadFut<T> { loop {} }
    pub fn write(&self) -> RwLockWriteFut<T> { loop {} }
    pub fn try_read(&self) -> Result<RwLockReadGuard<T>, TryLockError> { loop {} }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<T>, TryLockError> { loop {} }
}
impl<T: 'static + ?Sized> RwLock<T> {
    pub fn with_read<B, F, R>(&self, _f: F) -> Pin<Box<dyn Future<Output = R> + Send>> where F: FnOnce(RwLockReadGuard<T>) -> B + Send + 'static, B: Future<Output = R> + Send + 'static { loop {} }
    pub fn with_write<B, F, R>(&self, _f: F) -> Pin<Box<dyn Future<Output = R> + Send>> where F: FnOnce(RwLockWriteGuard<T>) -> B + Send + 'static, B: Future<Output = R> + Send + 'static { loop {} }
}
impl<T> Mutex<T> {
    pub fn new(t: T) -> Self { Self(Arc::new(C(UnsafeCell::new(t)))) }
    pub fn try_unwrap(self) -> Result<T, Mutex<T>> { loop {} }
}
impl<T: ?Sized> Mutex<T> {
    pub fn get_mut(&mut self) -> Option<&mut T> { loop {} }
    pub fn lock(&self) -> MutexFut<T> { loop {} }
    pub fn try_lock(&self) -> Result<MutexGuard<T>, TryLockError> { loop {} }
}
