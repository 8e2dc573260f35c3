//! libc symbols the code under test reaches for blocking, time, randomness and threads. Defined in
//! the executable, so std, parking_lot and friends link against these instead of libc's.
use crate::sched::*;
use libc::{c_int, c_long, c_void, timespec};

type Start = extern "C" fn(*mut c_void) -> *mut c_void;

unsafe fn next(name: &[u8]) -> usize {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize;
    if p == 0 {
        libc::_exit(72);
    }
    p
}
pub unsafe fn real_pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut c_void) -> c_int {
    static mut F: usize = 0;
    if F == 0 {
        F = next(b"pthread_create\0");
    }
    let f: extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int = std::mem::transmute(F);
    f(out, attr, start, arg)
}
pub unsafe fn real_pthread_join(pt: libc::pthread_t) {
    static mut F: usize = 0;
    if F == 0 {
        F = next(b"pthread_join\0");
    }
    let f: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(F);
    f(pt, std::ptr::null_mut());
}
pub fn warm_up() {
    unsafe {
        // resolve before forking so that children do not run the dynamic linker
        extern "C" fn nop(_: *mut c_void) -> *mut c_void {
            std::ptr::null_mut()
        }
        let mut pt = 0;
        if real_pthread_create(&mut pt, std::ptr::null(), nop, std::ptr::null_mut()) == 0 {
            real_pthread_join(pt);
        }
    }
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: isize) -> c_long {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r as c_long
    }
}

unsafe fn abs_deadline(ts: *const timespec, relative: bool, realtime: bool) -> u64 {
    if ts.is_null() {
        return u64::MAX;
    }
    let t = &*ts;
    let v = (t.tv_sec as i128) * 1_000_000_000 + t.tv_nsec as i128;
    let v = if relative {
        now() as i128 + v
    } else if realtime {
        v - sim().realtime_offset as i128
    } else {
        v
    };
    v.clamp(0, (u64::MAX - 1) as i128) as u64
}

/// Additional system call hook for other crates (e.g. a simulated procfs).
pub static mut SYSCALL_HOOK: Option<fn(c_long, &[usize; 6]) -> Option<isize>> = None;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if in_sim() {
        if n == libc::SYS_futex {
            let op = b & 127;
            match op {
                0 | 9 => {
                    let dl = abs_deadline(d as *const timespec, op == 0, b & 256 != 0);
                    let mask = if op == 9 { f as u32 } else { u32::MAX };
                    let r = futex_wait(a, c as u32, dl, mask);
                    if r != 0 {
                        set_errno(r);
                        return -1;
                    }
                    return 0;
                }
                1 | 10 => {
                    let mask = if op == 10 { f as u32 } else { u32::MAX };
                    return futex_wake(a, c as u32, mask) as c_long;
                }
                _ => crate::run::harness_error(&format!("unsupported futex operation {op}")),
            }
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut _, b, c as u32) as c_long;
        }
        if let Some(h) = SYSCALL_HOOK {
            if let Some(r) = h(n, &[a, b, c, d, e, f]) {
                return ret(r);
            }
        }
    }
    ret(raw_syscall(n as usize, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if in_sim() {
        // a fixed stream per run, derived from the plan's fault seed
        static mut CTR: u64 = 0;
        let s = sim();
        for i in 0..len {
            CTR += 1;
            *(buf as *mut u8).add(i) = crate::rng::mix(s.fseed ^ CTR.wrapping_mul(0x1234_5677)) as u8;
        }
        return len as isize;
    }
    ret(raw_syscall(libc::SYS_getrandom as usize, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if in_sim() {
        let rt = clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE;
        let v = clock_read(rt);
        (*ts).tv_sec = (v / 1_000_000_000) as _;
        (*ts).tv_nsec = (v % 1_000_000_000) as _;
        return 0;
    }
    ret(raw_syscall(libc::SYS_clock_gettime as usize, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if in_sim() {
        sleep_until(abs_deadline(req, true, false));
        return 0;
    }
    ret(raw_syscall(libc::SYS_nanosleep as usize, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if in_sim() {
        sleep_until(abs_deadline(req, flags & libc::TIMER_ABSTIME == 0, clk == libc::CLOCK_REALTIME));
        return 0;
    }
    -(raw_syscall(libc::SYS_clock_nanosleep as usize, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        point(K_YIELD, 0);
        return 0;
    }
    ret(raw_syscall(libc::SYS_sched_yield as usize, 0, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, len: usize, set: *mut libc::cpu_set_t) -> c_int {
    if in_sim() {
        let p = set as *mut u8;
        for i in 0..len {
            *p.add(i) = 0;
        }
        for c in 0..sim().cores.min(len * 8) {
            *p.add(c / 8) |= 1 << (c % 8);
        }
        return 0;
    }
    let r = raw_syscall(libc::SYS_sched_getaffinity as usize, pid as usize, len, set as usize, 0, 0, 0);
    if r < 0 {
        ret(r) as c_int
    } else {
        0
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut c_void) -> c_int {
    if in_sim() {
        return create_thread(out, start as usize, arg as usize);
    }
    real_pthread_create(out, attr, start, arg)
}

/// std insists on a guard page below every thread; simulated stacks lie in one mapping.
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(_a: *const libc::pthread_attr_t, size: *mut usize) -> c_int {
    *size = 4096;
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(pt: libc::pthread_t, retval: *mut *mut c_void) -> c_int {
    if in_sim() {
        if let Some(t) = find_thread(pt) {
            let r = join_thread(t);
            if !retval.is_null() {
                *retval = r as *mut c_void;
            }
            return 0;
        }
    }
    real_pthread_join(pt);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(_pt: libc::pthread_t) -> c_int {
    // finished simulated threads are always joined by the scheduler
    0
}

/// Files opened through std: nothing of the host's file system is visible in a simulated run
/// (std consults cgroup files to size `available_parallelism`).
pub static mut OPEN_HOOK: Option<fn(&std::ffi::CStr, i32) -> Result<i32, i32>> = None;

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if in_sim() {
        let e = match OPEN_HOOK {
            Some(h) => match h(std::ffi::CStr::from_ptr(path), flags) {
                Ok(fd) => return fd,
                Err(e) => e,
            },
            None => libc::ENOENT,
        };
        set_errno(e);
        return -1;
    }
    ret(raw_syscall(libc::SYS_openat as usize, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(path, flags, mode)
}
