/// Only the name is needed.
#[derive(Default)] pub struct RwLock<T>(std::sync::RwLock<T>); impl<T> RwLock<T> { pub fn new(t: T) -> Self { Self(std::sync::RwLock::new(t)) } pub fn read(&self) -> std::sync::RwLockReadGuard<T> { self.0.read().unwrap() } pub fn write(&self) -> std::sync::RwLockWriteGuard<T> { self.0.write().unwrap() } }
