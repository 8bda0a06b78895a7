mod alloc;
mod case;
mod conc;
mod crowd;
mod gen;
mod interpose;
mod io;
mod known;
mod props;
mod real;
mod sched;
mod seq;
mod special;
mod sys;

fn main() {
    // Few descriptors, so that what piles up shows.
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max.min(8192);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    props::main();
}
