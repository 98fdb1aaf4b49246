//! Interleaving: at the k-th point of an operation (an element's callback, a request to the
//! allocator) another operation runs to completion, then the first continues.

pub struct State {
    f: Option<*const dyn Fn()>,
    left: usize,
    count: usize,
    fired: bool,
}
static mut P: State = State { f: None, left: 0, count: 0, fired: false };

/// A point at which another operation may run.
#[inline]
pub fn point() {
    if unsafe { (*std::ptr::addr_of!(P)).f.is_none() } {
        return;
    }
    let p = unsafe { &mut P };
    if let Some(f) = p.f {
        // what runs inside could not panic then
        if std::thread::panicking() {
            return;
        }
        p.count += 1;
        if p.left == 0 {
            p.f = None;
            p.fired = true;
            unsafe { (*f)() }
        } else {
            p.left -= 1;
        }
    }
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        unsafe { P.f = None }
    }
}

/// Runs `body` with `f` at its k-th point; false if it has no more than k points.
pub fn at(k: usize, f: &dyn Fn(), body: impl FnOnce()) -> bool {
    let f: &'static dyn Fn() = unsafe { std::mem::transmute(f) };
    unsafe { P = State { f: Some(f), left: k, count: 0, fired: false } };
    let _off = Off;
    body();
    unsafe { P.fired }
}

/// Where the monitor keeps this.
pub fn own() -> (usize, usize) {
    let p = std::ptr::addr_of!(P) as usize;
    (p, p + std::mem::size_of::<State>())
}
