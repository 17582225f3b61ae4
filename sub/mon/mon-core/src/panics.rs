//! Panics of the code under test are observations, not crashes: caught, with message and location.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
pub fn install() {
	std::panic::set_hook(Box::new(|i| {
		let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
		let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		LAST.with(|x| *x.borrow_mut() = format!("{} at {}", m, at));
	}));
}
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|x| x.borrow().clone()))
}
