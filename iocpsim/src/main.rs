//! iocpsim OS run ... | iocpsim OS replay FILE [PROP]
mod case;
mod engine;
mod props;
pub use engine::{run, Outcome};

pub fn real_ns() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}

/// The clock the library sees.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_MONOTONIC {
        let now = windows_sys::sim::now() + 1_000_000_000_000;
        (*t).tv_sec = (now / 1_000_000_000) as _;
        (*t).tv_nsec = (now % 1_000_000_000) as _;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, id, t) as _
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    props::main();
}
