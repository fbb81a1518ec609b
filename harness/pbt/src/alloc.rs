//! A counting global allocator: lets a case state how much memory the code it
//! called has claimed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;

#[derive(Clone, Copy, Default)]
struct State {
    on: bool,
    live: isize,
    peak: isize,
    largest: usize,
    refused: bool,
}

thread_local! {
    static STATE: Cell<State> = const { Cell::new(State { on: false, live: 0, peak: 0, largest: 0, refused: false }) };
}

/// No single request beyond this is passed on: it is answered as an
/// exhausted allocator would.
const REFUSE: usize = 1 << 31;

fn note(delta: isize, request: usize) -> bool {
    STATE
        .try_with(|s| {
            let mut v = s.get();
            if v.on {
                v.largest = v.largest.max(request);
                if request >= REFUSE {
                    v.refused = true;
                    s.set(v);
                    return false;
                }
                v.live += delta;
                v.peak = v.peak.max(v.live);
                s.set(v);
            }
            true
        })
        .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as isize, l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as isize, l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !note(new as isize - l.size() as isize, new) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, new)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

/// What was claimed while measuring.
pub struct Usage {
    /// Highest amount of live bytes on top of what was live at the start.
    pub peak: usize,
    /// Largest single request.
    pub largest: usize,
}

/// Measure the memory claimed on this thread by `f`.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            STATE.with(|s| {
                let mut v = s.get();
                v.on = false;
                s.set(v);
            });
        }
    }
    STATE.with(|s| s.set(State { on: true, ..State::default() }));
    let off = Off;
    let out = f();
    drop(off);
    let s = STATE.with(|s| s.get());
    (out, Usage { peak: s.peak.max(0) as usize, largest: s.largest })
}
