//! Monitors: allocation counting, guard pages, memory map, small stacks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn count(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
    let _ = CALLS.try_with(|b| b.set(b.get() + 1));
}
thread_local! {
    static FILL: Cell<u8> = const { Cell::new(0) };
}
fn filler() -> u8 {
    FILL.try_with(|f| f.get()).unwrap_or(0)
}
/// Memory is filled with a byte when it is allocated and when it is freed, and every reallocation moves: a result that
/// depends on memory that is not initialised, or was freed, changes with the byte.
pub fn with_fill<T>(byte: u8, f: impl FnOnce() -> T) -> T {
    FILL.with(|x| x.set(byte));
    let t = f();
    FILL.with(|x| x.set(0));
    t
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        let p = System.alloc(l);
        let f = filler();
        if f != 0 && !p.is_null() {
            std::ptr::write_bytes(p, f, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let f = filler();
        if f != 0 {
            std::ptr::write_bytes(p, !f, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if filler() != 0 {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        count(n);
        System.realloc(p, l, n)
    }
}
#[cfg(not(miri))]
#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Bytes and calls requested from the allocator by this thread while running something.
pub fn allocations<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let (b, c) = (BYTES.with(|b| b.get()), CALLS.with(|c| c.get()));
    let t = f();
    (t, BYTES.with(|b| b.get()) - b, CALLS.with(|c| c.get()) - c)
}

#[cfg(not(miri))]
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
pub const PAGE: usize = 4096;

/// A buffer between two pages that cannot be accessed.
pub struct Guarded {
    base: *mut u8,
    len: usize,
}
#[cfg(not(miri))]
impl Guarded {
    pub fn new(pages: usize) -> Guarded {
        unsafe {
            let total = (pages + 2) * PAGE;
            let p = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(p as isize != -1, "mmap");
            assert_eq!(mprotect(p, PAGE, 0), 0);
            assert_eq!(mprotect(p.add((pages + 1) * PAGE), PAGE, 0), 0);
            Guarded { base: p.add(PAGE), len: pages * PAGE }
        }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    /// Copies an input so that it ends (or starts) at the edge.
    pub fn put(&mut self, data: &[u8], at_end: bool) -> &'static [u8] {
        assert!(data.len() <= self.len);
        unsafe {
            let p = if at_end { self.base.add(self.len - data.len()) } else { self.base };
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            std::slice::from_raw_parts(p, data.len())
        }
    }
    /// Allows writing to the buffer or not.
    pub fn writable(&mut self, yes: bool) {
        unsafe {
            assert_eq!(mprotect(self.base, self.len, if yes { 3 } else { 1 }), 0);
        }
    }
    /// The whole buffer.
    pub fn all(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.len) }
    }
}

/// The range of addresses of the constants of this program.
pub fn image() -> (usize, usize) {
    static R: std::sync::OnceLock<(usize, usize)> = std::sync::OnceLock::new();
    *R.get_or_init(|| {
        let exe = std::fs::read_link("/proc/self/exe").map(|p| p.display().to_string()).unwrap_or_default();
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let (mut lo, mut hi) = (usize::MAX, 0);
        for l in maps.lines() {
            if !exe.is_empty() && l.ends_with(&exe) && l.split(' ').nth(1).map_or(false, |p| p.starts_with("r-")) {
                if let Some((a, b)) = l.split(' ').next().and_then(|r| r.split_once('-')) {
                    lo = lo.min(usize::from_str_radix(a, 16).unwrap_or(usize::MAX));
                    hi = hi.max(usize::from_str_radix(b, 16).unwrap_or(0));
                }
            }
        }
        (lo, hi)
    })
}

/// Runs on a thread with a small stack: recursion that follows the input overflows it.
pub fn small_stack<T: Send>(bytes: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(bytes).spawn_scoped(s, f).expect("thread").join().expect("join"))
}

/// The depth of stack that `f` uses, in bytes.
#[cfg(not(miri))]
pub fn stack_used<F: FnMut()>(mut f: F) -> usize {
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
        fn munmap(a: *mut u8, n: usize) -> i32;
        fn pthread_attr_init(a: *mut [u64; 16]) -> i32;
        fn pthread_attr_destroy(a: *mut [u64; 16]) -> i32;
        fn pthread_attr_setstack(a: *mut [u64; 16], p: *mut u8, n: usize) -> i32;
        fn pthread_create(t: *mut usize, a: *const [u64; 16], f: extern "C" fn(*mut u8) -> *mut u8, x: *mut u8) -> i32;
        fn pthread_join(t: usize, r: *mut *mut u8) -> i32;
    }
    extern "C" fn start<F: FnMut()>(x: *mut u8) -> *mut u8 {
        let f = unsafe { &mut *(x as *mut F) };
        // what the closure reports is reported elsewhere
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        std::ptr::null_mut()
    }
    const SIZE: usize = 8 << 20;
    unsafe {
        // fresh pages are zero, so the lowest byte that is not shows how far the stack went
        let m = mmap(std::ptr::null_mut(), SIZE + PAGE, 3, 0x22, -1, 0);
        assert!(m as isize != -1);
        assert_eq!(mprotect(m, PAGE, 0), 0);
        let stack = m.add(PAGE);
        let mut attr = [0u64; 16];
        assert_eq!(pthread_attr_init(&mut attr), 0);
        assert_eq!(pthread_attr_setstack(&mut attr, stack, SIZE), 0);
        let mut t = 0usize;
        assert_eq!(pthread_create(&mut t, &attr, start::<F>, &mut f as *mut F as *mut u8), 0);
        pthread_join(t, std::ptr::null_mut());
        pthread_attr_destroy(&mut attr);
        let words = std::slice::from_raw_parts(stack as *const u64, SIZE / 8);
        let low = words.iter().position(|w| *w != 0).unwrap_or(words.len());
        munmap(m, SIZE + PAGE);
        SIZE - low * 8
    }
}

/// Processor time used by this thread, in nanoseconds.
#[cfg(not(miri))]
pub fn cpu() -> u64 {
    extern "C" {
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

/// Edges of the control flow of the library taken so far (when it was built with the coverage wrapper).
#[cfg(all(feature = "cov", not(miri)))]
mod edges {
    pub const N: usize = 1 << 16;
    #[no_mangle]
    pub static mut VH_EDGES: [u64; N] = [0; N];
    pub static mut USED: u32 = 0;
    // counts the edge whose number is stored in the guard
    std::arch::global_asm!(
        ".globl __sanitizer_cov_trace_pc_guard",
        "__sanitizer_cov_trace_pc_guard:",
        "mov eax, dword ptr [rdi]",
        "lea rdx, [rip + VH_EDGES]",
        "inc qword ptr [rdx + rax*8]",
        "ret"
    );
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
        let mut p = start;
        while p < stop {
            if *p == 0 && (USED as usize) < N - 1 {
                USED += 1;
                *p = USED;
            }
            p = p.add(1);
        }
    }
}
#[cfg(all(feature = "cov", not(miri)))]
pub fn edges() -> u64 {
    unsafe { (&*std::ptr::addr_of!(edges::VH_EDGES))[..=edges::USED as usize].iter().sum() }
}
#[cfg(all(feature = "cov", not(miri)))]
pub fn edge_table() -> &'static [u64] {
    unsafe { &(&*std::ptr::addr_of!(edges::VH_EDGES))[..=edges::USED as usize] }
}
#[cfg(not(all(feature = "cov", not(miri))))]
pub fn edges() -> u64 {
    0
}

/// The surroundings of the process: what the C library answers about the environment, the clock, the process and files.
/// In another world, the answers are others, and differ from call to call.
#[cfg(all(feature = "world", not(miri)))]
pub mod world {
    use std::cell::Cell;
    use std::ffi::{c_char, c_int, c_long};
    thread_local! {
        static WORLD: Cell<u64> = const { Cell::new(0) };
        static ASKED: Cell<u64> = const { Cell::new(0) };
    }
    /// Runs something in another world (not 0). Also tells how many questions were asked.
    pub fn within<T>(n: u64, f: impl FnOnce() -> T) -> (T, u64) {
        let before = ASKED.with(|a| a.get());
        WORLD.with(|w| w.set(n));
        let t = f();
        WORLD.with(|w| w.set(0));
        (t, ASKED.with(|a| a.get()) - before)
    }
    /// In this world: nothing. In another: a number that depends on it and on the questions asked before.
    fn other() -> Option<u64> {
        let w = WORLD.try_with(|w| w.get()).unwrap_or(0);
        if w == 0 {
            return None;
        }
        let n = ASKED.try_with(|a| {
            a.set(a.get() + 1);
            a.get()
        });
        let mut x = w ^ n.unwrap_or(0).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^= x >> 31;
        x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        x ^= x >> 29;
        Some(x)
    }
    extern "C" {
        fn syscall(n: c_long, ...) -> c_long;
        static environ: *const *const c_char;
        fn __errno_location() -> *mut c_int;
    }
    unsafe fn fail(e: c_int) {
        *__errno_location() = e;
    }
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        const VALUES: [&std::ffi::CStr; 12] = [c"", c"0", c"1", c"true", c"C", c"en_US.UTF-8", c"tr_TR.UTF-8", c"Europe/Paris", c"strict", c"debug", c"/nonexistent", c"65536"];
        if let Some(x) = other() {
            return if x % 3 == 0 { std::ptr::null() } else { VALUES[(x >> 8) as usize % VALUES.len()].as_ptr() };
        }
        let name = std::ffi::CStr::from_ptr(name).to_bytes();
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = std::ffi::CStr::from_ptr(*p).to_bytes();
            if e.len() > name.len() && e[name.len()] == b'=' && e.starts_with(name) {
                return (*p).add(name.len() + 1);
            }
            p = p.add(1);
        }
        std::ptr::null()
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut [i64; 2]) -> c_int {
        if let Some(x) = other() {
            // remarkable times, or any
            const TIMES: [i64; 6] = [0, 1, 951782400, 2147483647, 2147483648, 4102444800];
            *t = [if x % 2 == 0 { TIMES[(x >> 8) as usize % 6] } else { (x >> 8) as i64 % 8_000_000_000 }, (x >> 20) as i64 % 1_000_000_000];
            return 0;
        }
        syscall(228, id as c_long, t) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn getpid() -> c_int {
        match other() {
            Some(x) => (x % 100) as c_int + 1,
            None => syscall(39) as c_int,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
        match other() {
            Some(x) if x % 2 == 0 || n < 2 => {
                fail(2);
                std::ptr::null_mut()
            }
            Some(_) => {
                *b = b'/' as c_char;
                *b.add(1) = 0;
                b
            }
            None => {
                if syscall(79, b, n) > 0 {
                    b
                } else {
                    std::ptr::null_mut()
                }
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        match other() {
            // what cannot be opened, or contains nothing, or anything
            Some(x) if x % 3 == 0 => {
                fail(2);
                -1
            }
            Some(x) => syscall(2, if x % 3 == 1 { c"/dev/null" } else { c"/dev/urandom" }.as_ptr(), 0 as c_long, 0 as c_long) as c_int,
            None => syscall(2, path, flags as c_long, mode as c_long) as c_int,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn sched_getaffinity(p: c_int, n: usize, set: *mut u8) -> c_int {
        if let Some(x) = other() {
            for i in 0..n {
                *set.add(i) = if i == 0 { x as u8 | 1 } else { 0 };
            }
            return 0;
        }
        // the system call gives the number of bytes written
        let r = syscall(204, p as c_long, n, set);
        if r < 0 {
            return -1;
        }
        for i in r as usize..n {
            *set.add(i) = 0;
        }
        0
    }
}
