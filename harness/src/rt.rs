//! Stand-ins for the few calls with which the library asks for real-time scheduling.
//!
//! They are linked instead of the C library's.  In a thread that has set a `World` they answer (and
//! remember) instead of the operating system; everywhere else they pass the call on.
use std::cell::Cell;

/// What the operating system offers.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct World {
    /// /sys/kernel/realtime exists
    pub kernel: bool,
    /// the thread's priority may be raised
    pub priority: bool,
    /// memory may be locked
    pub lock: bool,
}
impl World {
    pub fn good(&self) -> bool {
        self.kernel && self.priority && self.lock
    }
}
/// What has been asked for (and granted) so far.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Asked {
    pub policy: i32,
    pub priority: i32,
    pub locked: i32,
    pub calls: u32,
}
thread_local! {
    static WORLD: Cell<Option<World>> = const { Cell::new(None) };
    static ASKED: Cell<Asked> = const { Cell::new(Asked { policy: 0, priority: 0, locked: 0, calls: 0 }) };
}
pub fn set(w: Option<World>) {
    WORLD.with(|x| x.set(w));
    ASKED.with(|x| x.set(Asked::default()));
}
pub fn asked() -> Asked {
    ASKED.with(|x| x.get())
}
/// Whether the stand-ins are really in place for this build.
pub fn works() -> bool {
    let p = std::path::Path::new("/sys/kernel/realtime");
    set(Some(World { kernel: true, priority: true, lock: true }));
    let a = p.exists();
    let r = unsafe {
        let q = libc::sched_param { sched_priority: 1 };
        let r = libc::pthread_setschedparam(libc::pthread_self(), libc::SCHED_FIFO, &q);
        r == 0 && asked().policy == libc::SCHED_FIFO && libc::mlockall(libc::MCL_CURRENT) == 0 && asked().locked == libc::MCL_CURRENT
    };
    set(Some(World { kernel: false, priority: false, lock: false }));
    let b = p.exists();
    set(None);
    a && !b && r
}
fn world() -> Option<World> {
    WORLD.try_with(|x| x.get()).unwrap_or(None)
}
fn errno(e: i32) -> libc::c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
fn note(f: impl FnOnce(&mut Asked)) {
    let _ = ASKED.try_with(|x| {
        let mut a = x.get();
        a.calls += 1;
        f(&mut a);
        x.set(a);
    });
}
unsafe fn is_rt(p: *const libc::c_char) -> Option<bool> {
    let w = world()?;
    if p.is_null() || libc::strcmp(p, b"/sys/kernel/realtime\0".as_ptr() as *const libc::c_char) != 0 {
        return None;
    }
    Some(w.kernel)
}
const ROOT: *const libc::c_char = b"/\0".as_ptr() as *const libc::c_char;

#[no_mangle]
unsafe extern "C" fn statx(d: libc::c_int, p: *const libc::c_char, f: libc::c_int, m: libc::c_uint, b: *mut libc::c_void) -> libc::c_int {
    let p = match is_rt(p) {
        Some(false) => return errno(libc::ENOENT),
        Some(true) => ROOT,
        None => p,
    };
    libc::syscall(libc::SYS_statx, d, p, f, m, b) as libc::c_int
}
#[no_mangle]
unsafe extern "C" fn stat64(p: *const libc::c_char, b: *mut libc::c_void) -> libc::c_int {
    let p = match is_rt(p) {
        Some(false) => return errno(libc::ENOENT),
        Some(true) => ROOT,
        None => p,
    };
    libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, p, b, 0) as libc::c_int
}
#[no_mangle]
unsafe extern "C" fn access(p: *const libc::c_char, m: libc::c_int) -> libc::c_int {
    match is_rt(p) {
        Some(false) => errno(libc::ENOENT),
        Some(true) => 0,
        None => libc::syscall(libc::SYS_faccessat, libc::AT_FDCWD, p, m) as libc::c_int,
    }
}
#[no_mangle]
unsafe extern "C" fn open64(p: *const libc::c_char, f: libc::c_int, m: libc::mode_t) -> libc::c_int {
    match is_rt(p) {
        Some(false) => errno(libc::ENOENT),
        Some(true) => {
            let fd = libc::syscall(libc::SYS_memfd_create, b"rt\0".as_ptr(), 0) as libc::c_int;
            if fd >= 0 {
                libc::write(fd, b"1\n".as_ptr() as *const libc::c_void, 2);
                libc::lseek(fd, 0, libc::SEEK_SET);
            }
            fd
        }
        None => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, f, m) as libc::c_int,
    }
}
#[no_mangle]
unsafe extern "C" fn pthread_setschedparam(t: libc::pthread_t, policy: libc::c_int, p: *const libc::sched_param) -> libc::c_int {
    match world() {
        Some(w) => {
            note(|a| {
                if w.priority {
                    a.policy = policy;
                    a.priority = (*p).sched_priority;
                }
            });
            if w.priority {
                0
            } else {
                libc::EPERM
            }
        }
        None => {
            // no thread of the harness itself is ever meant to be real-time
            let _ = t;
            libc::EPERM
        }
    }
}
#[no_mangle]
unsafe extern "C" fn sched_setscheduler(_pid: libc::pid_t, policy: libc::c_int, p: *const libc::sched_param) -> libc::c_int {
    match pthread_setschedparam(0, policy, p) {
        0 => 0,
        e => errno(e),
    }
}
#[no_mangle]
unsafe extern "C" fn mlockall(flags: libc::c_int) -> libc::c_int {
    match world() {
        Some(w) => {
            note(|a| {
                if w.lock {
                    a.locked |= flags;
                }
            });
            if w.lock {
                0
            } else {
                errno(libc::EPERM)
            }
        }
        None => errno(libc::EPERM),
    }
}
