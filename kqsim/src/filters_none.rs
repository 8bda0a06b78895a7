pub const KQ: bool = false;

fn filter_op(_: &polling::Poller, _: usize, _: usize, _: usize, _: usize, _: polling::PollMode) -> std::io::Result<()> {
    unreachable!()
}
