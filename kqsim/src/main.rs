//! kqsim OS run ... | kqsim OS replay FILE [PROP]
mod case;
mod props;

mod freebsd {
    use polling_freebsd as polling;
    include!("filters_kq.rs");
    include!("engine.rs");
}
mod netbsd {
    use polling_netbsd as polling;
    include!("filters_kq.rs");
    include!("engine.rs");
}
mod illumos {
    use polling_illumos as polling;
    include!("filters_none.rs");
    include!("engine.rs");
}

pub struct Outcome {
    pub viol: Option<String>,
    pub log: Vec<String>,
    pub labels: std::collections::BTreeSet<&'static str>,
    pub hang: bool,
}

pub fn run(os: &str, ops: &[case::Op], log: bool) -> Outcome {
    match os {
        "freebsd" => freebsd::run(ops, log),
        "netbsd" => netbsd::run(ops, log),
        _ => illumos::run(ops, log),
    }
}

pub fn real_ns() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}

/// The clock the library sees.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_MONOTONIC {
        let now = rustix::sim::now() + 1_000_000_000_000;
        (*t).tv_sec = (now / 1_000_000_000) as _;
        (*t).tv_nsec = (now % 1_000_000_000) as _;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, id, t) as _
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    props::main();
}
