//! libc-level seams: clocks and entropy. Defined in the executable, they take
//! precedence over libc's, so `std`, `chrono`, `uuid`, `rand` and `HashMap`
//! all see simulated time and seeded randomness while a simulation is active.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

static SEEDED: AtomicBool = AtomicBool::new(false);
static STATE: AtomicU64 = AtomicU64::new(0);
pub static RAND_CALLS: AtomicU64 = AtomicU64::new(0);

thread_local! { static _KEEP: Cell<u8> = const { Cell::new(0) }; }

pub fn seed_entropy(seed: u64) {
    STATE.store(seed ^ 0x243F6A8885A308D3, Ordering::SeqCst);
    SEEDED.store(true, Ordering::SeqCst);
}
pub fn unseed() {
    SEEDED.store(false, Ordering::SeqCst);
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

unsafe fn fill(buf: *mut u8, len: usize) {
    RAND_CALLS.fetch_add(1, Ordering::Relaxed);
    let mut i = 0;
    while i < len {
        let s = STATE.fetch_add(0x9E3779B97F4A7C15, Ordering::SeqCst);
        let v = tokio::sim::mix(s, 0x1337, 7).to_le_bytes();
        let k = (len - i).min(8);
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf.add(i), k);
        i += k;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if SEEDED.load(Ordering::SeqCst) {
        fill(buf as *mut u8, len);
        len as _
    } else {
        ret(raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as _
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> libc::c_long {
    if n == libc::SYS_getrandom && SEEDED.load(Ordering::SeqCst) {
        fill(a as *mut u8, b as usize);
        return b;
    }
    ret(raw(n, a, b, c, d, e, f))
}

/// 2024-01-01T00:00:00Z
pub const WALL_BASE: i64 = 1_704_067_200;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if tokio::sim::active() {
        let v = tokio::sim::now_nanos() as i128;
        let t = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
                let t = WALL_BASE as i128 * 1_000_000_000 + v + tokio::sim::skew_nanos() as i128;
                match tokio::sim::wall_grain() as i128 {
                    0 => t,
                    g => t / g * g,
                }
            }
            _ => 1_000_000_000_000 + v,
        };
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        0
    } else {
        ret(raw(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
    }
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> libc::c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}

pub fn real_now() -> f64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { raw(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}
