#[global_allocator]
static ALLOC: cesr_monitor::p_wipe::Watch = cesr_monitor::p_wipe::Watch;

fn main() {
    cesr_monitor::run(cesr_monitor::all)
}
