// Helpers of the programs of tools/surface.py. The crate may be no_std: hstd is std.
use crate::hstd;
pub use hstd::{string::String, vec::Vec};
use hstd::cell::RefCell;
use hstd::fmt::Debug;

pub mod hs {
    pub struct St<T>([Option<T>; 16], usize);
    impl<T> St<T> {
        pub fn new() -> Self { St([None, None, None, None, None, None, None, None, None, None, None, None, None, None, None, None], 0) }
        pub fn push(&mut self, t: T) { self.0[self.1] = Some(t); self.1 += 1; }
        pub fn pop(&mut self) -> Option<T> { if self.1 == 0 { None } else { self.1 -= 1; self.0[self.1].take() } }
        pub fn last(&self) -> Option<&T> { if self.1 == 0 { None } else { self.0[self.1 - 1].as_ref() } }
        pub fn is_empty(&self) -> bool { self.1 == 0 }
        pub fn clear(&mut self) { while let Some(_) = self.pop() {} }
        pub fn len(&self) -> usize { self.1 }
    }
}

#[derive(Debug, Default, Clone)]
pub struct Er(pub i64);

hstd::thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new()); }
pub fn rec(key: &str, v: &dyn Debug) { LOG.with(|l| l.borrow_mut().push(hstd::format!("{}={:?}", key, v))) }
pub fn show(key: &str, v: &str) { LOG.with(|l| l.borrow_mut().push(hstd::format!("{}={}", key, v.replace("\n", " ")))) }
/// A fragment that is at line `is` and was written at line `was`
pub fn at(key: &str, is: u32, was: u32) { LOG.with(|l| l.borrow_mut().push(hstd::format!("{}={}", key, if is == was { "here" } else { "elsewhere" }))) }
pub fn flush(k: usize) { LOG.with(|l| for x in l.borrow_mut().drain(..) { hstd::println!("{}\t{}", k, x) }) }
pub fn need_clone<T: Clone>() {}
pub fn need_default<T: Default>() {}
pub fn quiet() { hstd::panic::set_hook(hstd::boxed::Box::new(|_| {})) }
pub fn caught(k: usize, f: fn()) { if hstd::panic::catch_unwind(f).is_err() { show("panic", "") } flush(k) }
