//! Memory which ends where it cannot be read.
use std::cell::RefCell;

const ARENA: usize = 1 << 20;

struct Guard(*mut u8);

impl Guard {
    fn new() -> Self {
        // SAFETY: maps fresh memory, with a page which cannot be read on both
        // sides.
        unsafe {
            let page = 4096;
            let p = libc::mmap(
                std::ptr::null_mut(),
                ARENA + 2 * page,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let p = p.cast::<u8>();
            assert_eq!(libc::mprotect(p.cast(), page, libc::PROT_NONE), 0);
            assert_eq!(libc::mprotect(p.add(page + ARENA).cast(), page, libc::PROT_NONE), 0);
            Guard(p.add(page))
        }
    }
}

fn base() -> *mut u8 {
    thread_local! {
        static GUARD: RefCell<Option<Guard>> = const { RefCell::new(None) };
    }
    GUARD.with(|g| g.borrow_mut().get_or_insert_with(Guard::new).0)
}

const FENCE: usize = 64;

/// Run with a copy of the bytes which ends `slack` bytes before memory which
/// cannot be accessed. Reports whether memory around it was written to.
pub fn guarded<T>(b: &[u8], slack: usize, f: impl FnOnce(&mut [u8]) -> T) -> (T, bool) {
    let p = base();
    assert!(b.len() + slack + FENCE <= ARENA);
    // SAFETY: the arena is as long, and only used by this function on this
    // thread, which does not nest.
    unsafe {
        let at = p.add(ARENA - slack - b.len());
        std::ptr::write_bytes(at.sub(FENCE), 0x5c, FENCE);
        std::ptr::write_bytes(at.add(b.len()), 0x5c, slack);
        std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
        let out = f(std::slice::from_raw_parts_mut(at, b.len()));
        let around = |p: *mut u8, n| std::slice::from_raw_parts(p, n).iter().all(|b| *b == 0x5c);
        (out, around(at.sub(FENCE), FENCE) && around(at.add(b.len()), slack))
    }
}
