//! The entry points that `-Zsanitizer=thread` instrumentation calls. Instead of a race detector they
//! are the simulator's scheduling points.
use crate::sched::{plain, point, K_ATOMIC};
use std::sync::atomic::*;

macro_rules! atomics {
    ($($t:ty, $at:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $casv:ident $cass:ident $casw:ident;)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $load(a: *const $at, _mo: i32) -> $t { point(K_ATOMIC, a as usize); (*a).load(Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(a: *const $at, v: $t, _mo: i32) { point(K_ATOMIC, a as usize); (*a).store(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(a: *const $at, v: $t, _mo: i32) -> $t { point(K_ATOMIC, a as usize); (*a).swap(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(a: *const $at, v: $t, _mo: i32) -> $t { point(K_ATOMIC, a as usize); (*a).fetch_add(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(a: *const $at, v: $t, _mo: i32) -> $t { point(K_ATOMIC, a as usize); (*a).fetch_sub(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(a: *const $at, v: $t, _mo: i32) -> $t { point(K_ATOMIC, a as usize); (*a).fetch_and(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(a: *const $at, v: $t, _mo: i32) -> $t { point(K_ATOMIC, a as usize); (*a).fetch_or(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(a: *const $at, v: $t, _mo: i32) -> $t { point(K_ATOMIC, a as usize); (*a).fetch_xor(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(a: *const $at, v: $t, _mo: i32) -> $t { point(K_ATOMIC, a as usize); (*a).fetch_nand(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $casv(a: *const $at, c: $t, v: $t, _mo: i32, _fmo: i32) -> $t {
            point(K_ATOMIC, a as usize);
            match (*a).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(x) => x, Err(x) => x }
        }
        #[no_mangle] pub unsafe extern "C" fn $cass(a: *const $at, c: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 {
            let old = $casv(a, *c, v, mo, fmo);
            if old == *c { 1 } else { *c = old; 0 }
        }
        #[no_mangle] pub unsafe extern "C" fn $casw(a: *const $at, c: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 { $cass(a, c, v, mo, fmo) }
    )*};
}
atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak;
}

macro_rules! mem {
    ($($n:ident)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $n(a: *const u8) { plain(a as usize) }
    )*};
}
mem! { __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16 __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
 __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16 __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
 __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
 __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
 __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
 __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16 __tsan_vptr_read }

#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(_a: *const u8, _b: *const u8) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_pc: *const u8) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_mo: i32) {
    point(K_ATOMIC, 0);
    fence(Ordering::SeqCst);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    libc::memcpy(d as *mut _, s as *const _, n) as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    libc::memmove(d as *mut _, s as *const _, n) as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    libc::memset(d as *mut _, c, n) as *mut u8
}
