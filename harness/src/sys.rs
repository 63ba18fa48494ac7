//! The few system calls the supervisor needs, and the counting allocator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::os::raw::{c_int, c_long, c_void};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    fn kill(pid: c_int, sig: c_int) -> c_int;
    fn setrlimit(resource: c_int, rlim: *const [u64; 2]) -> c_int;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut c_int) -> c_int;
    fn clock_gettime(clock: c_int, t: *mut [i64; 2]) -> c_int;
}

/// The clock of the processor time that the calling thread uses.
pub fn own_clock() -> Option<i32> {
    let mut c = 0;
    unsafe { (pthread_getcpuclockid(pthread_self(), &mut c) == 0).then_some(c) }
}
/// Seconds on such a clock; nothing if its thread has ended.
pub fn clock_seconds(clock: i32) -> Option<f64> {
    let mut t = [0; 2];
    unsafe { (clock_gettime(clock, &mut t) == 0).then(|| t[0] as f64 + t[1] as f64 * 1e-9) }
}

/// Address space and core dump limits of this process.
pub fn limit_process(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]);
        setrlimit(4, &[0, 0]);
    }
}

/// Ends a child that leads a process group, with all that it started.
pub fn kill_group(leader: u32) {
    unsafe {
        kill(-(leader as c_int), 9);
    }
}

/// Words in a file shared with another process, which survive a crash of the writer.
#[derive(Clone, Copy)]
pub struct Shared {
    base: *const AtomicU64,
    len: usize,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

impl Shared {
    pub fn open(path: &std::path::Path, words: usize) -> std::io::Result<Shared> {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
        f.set_len(words as u64 * 8)?;
        let p = unsafe { mmap(std::ptr::null_mut(), words * 8, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Shared { base: p as *const AtomicU64, len: words })
    }
    pub fn get(&self, i: usize) -> u64 {
        assert!(i < self.len);
        unsafe { (*self.base.add(i)).load(Ordering::Relaxed) }
    }
    pub fn set(&self, i: usize, v: u64) {
        assert!(i < self.len);
        unsafe { (*self.base.add(i)).store(v, Ordering::Relaxed) }
    }
    pub fn len(&self) -> usize {
        self.len
    }
}

pub struct Counting;

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
    static METER: Cell<bool> = const { Cell::new(false) };
}

/// A single request above this is refused while metering: it ends the process with an abort,
/// which the supervisor attributes to the running case.
const REFUSE: usize = 1 << 30;

impl Counting {
    fn add(n: usize) -> bool {
        METER.with(|m| {
            if m.get() {
                if n > REFUSE {
                    return false;
                }
                CUR.with(|c| {
                    let v = c.get() + n;
                    c.set(v);
                    PEAK.with(|p| {
                        if v > p.get() {
                            p.set(v)
                        }
                    });
                });
            }
            true
        })
    }
    fn sub(n: usize) {
        METER.with(|m| {
            if m.get() {
                CUR.with(|c| c.set(c.get().saturating_sub(n)));
            }
        })
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !Counting::add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !Counting::add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        Counting::sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new may exist at the same time
        if !Counting::add(n) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, n);
        Counting::sub(l.size());
        r
    }
}

/// Runs `f` and returns the peak number of bytes it had allocated on this thread.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, usize) {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    METER.with(|m| m.set(true));
    let r = f();
    METER.with(|m| m.set(false));
    (r, PEAK.with(|p| p.get()))
}
