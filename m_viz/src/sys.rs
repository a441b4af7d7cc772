//! The file system calls of the thread under test are scheduling points: these
//! definitions take the place of libc's, report each call to the explorer (when
//! the thread is being explored) and then perform it.
use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, c_long, c_void};

unsafe extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
}
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static POINT: RefCell<Option<Box<dyn FnMut(&'static str)>>> = const { RefCell::new(None) };
}
fn point(what: &'static str) {
    if ARMED.with(|a| a.replace(false)) {
        POINT.with(|p| {
            if let Some(f) = p.borrow_mut().as_mut() {
                f(what)
            }
        });
        ARMED.with(|a| a.set(true));
    }
}
/// Run `body`, calling `f` before every file system call it makes.
pub fn explore<R>(f: Box<dyn FnMut(&'static str)>, body: impl FnOnce() -> R) -> R {
    POINT.with(|p| *p.borrow_mut() = Some(f));
    ARMED.with(|a| a.set(true));
    let r = body();
    ARMED.with(|a| a.set(false));
    POINT.with(|p| *p.borrow_mut() = None);
    r
}
thread_local! {
    /// When set, every file has the same inode number and this many seconds as its time of birth.
    pub static BORN: Cell<Option<i64>> = const { Cell::new(None) };
}
const AT_FDCWD: c_int = -100;
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    point("open");
    unsafe { syscall(257, AT_FDCWD, path, flags, mode) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    point("read");
    unsafe { syscall(0, fd, buf, n) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    point("lseek");
    unsafe { syscall(8, fd, off, whence) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
    point("statx");
    let r = unsafe { syscall(332, dir, path, flags, mask, buf) as c_int };
    if let (0, Some(t)) = (r, BORN.with(|b| b.get())) {
        unsafe {
            let b = buf as *mut u8;
            let mask = b as *mut u32;
            mask.write_unaligned(mask.read_unaligned() | 0x800);
            (b.add(32) as *mut u64).write_unaligned(7);
            (b.add(80) as *mut i64).write_unaligned(1_700_000_000 + t);
            (b.add(88) as *mut u32).write_unaligned(0);
        }
    }
    r
}
