//! `environmental!(NAME: trait T)`: a scoped, thread-local reference.
#[macro_export]
macro_rules! environmental {
	($name:ident : trait $t:ident) => {
		#[allow(non_snake_case)]
		mod $name {
			use super::*;
			use std::cell::Cell;
			thread_local! { static CUR: Cell<Option<*mut (dyn $t + 'static)>> = Cell::new(None); }
			pub fn using<R, F: FnOnce() -> R>(p: &mut (dyn $t + 'static), f: F) -> R {
				struct Back(Option<*mut (dyn $t + 'static)>);
				impl Drop for Back { fn drop(&mut self) { CUR.with(|c| c.set(self.0)) } }
				let _b = Back(CUR.with(|c| c.replace(Some(p as *mut (dyn $t + 'static)))));
				f()
			}
			pub fn with<R, F: FnOnce(&mut (dyn $t + 'static)) -> R>(f: F) -> Option<R> { CUR.with(|c| c.get()).map(|p| f(unsafe { &mut *p })) }
		}
	};
}
