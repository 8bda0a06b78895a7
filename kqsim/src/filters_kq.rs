pub const KQ: bool = true;

fn filter_op(p: &polling::Poller, what: usize, idx: usize, arg: usize, key: usize, mode: polling::PollMode) -> std::io::Result<()> {
    use polling::os::kqueue::{PollerKqueueExt, Process, ProcessOps, Signal, Timer};
    fn go<F: polling::os::kqueue::Filter>(p: &polling::Poller, what: usize, f: F, key: usize, mode: polling::PollMode) -> std::io::Result<()> {
        match what {
            0 => p.add_filter(f, key, mode),
            1 => p.modify_filter(f, key, mode),
            _ => p.delete_filter(f),
        }
    }
    match idx {
        0 | 1 => go(p, what, Timer { id: TIMER_IDS[idx], timeout: PERIODS[arg % PERIODS.len()] }, key, mode),
        2 | 3 => go(p, what, Signal(SIGNALS[idx - 2]), key, mode),
        _ => {
            let ops = [ProcessOps::Exit, ProcessOps::Fork, ProcessOps::Exec][arg % 3];
            let pid = std::num::NonZeroI32::new(PIDS[idx - 4]).unwrap();
            if arg % 2 == 0 {
                go(p, what, unsafe { Process::from_pid(pid, ops) }, key, mode)
            } else {
                go(p, what, &unsafe { Process::from_pid(pid, ops) }, key, mode)
            }
        }
    }
}
