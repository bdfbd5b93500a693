id="c08-wake-in-poll-dropped"
prop="C08"
needs="the root future wakes itself while it is being polled (async_executor does so after running 200 tasks in one go)"
breaks="a wake-up made during the poll leaves no trace: it is neither answered by another poll nor covered by a callback"
edits=[("async_ui_web_core/src/executor.rs", """        if !exe.scheduled.replace(true) && !exe.active.get() {
""", """        // the loop in `run_now` is already running: nothing to queue
        if exe.active.get() {
            return;
        }
        if !exe.scheduled.replace(true) {
""")]
demo=("core", """
use crate::executor::{run_now, schedule, set_executor_future};
#[test]
fn wake_during_poll() {
    let polls = Rc::new(Cell::new(0));
    let p = polls.clone();
    set_executor_future(Box::new(poll_fn(move |cx: &mut Context<'_>| {
        p.set(p.get() + 1);
        if p.get() < 3 {
            cx.waker().clone().wake();
        }
        Poll::<()>::Pending
    })));
    schedule();
    let mut ran = 0;
    while ran < web_sys::TIMEOUTS.with(|t| t.get()) && ran < 10 {
        ran += 1;
        run_now();
    }
    assert_eq!(polls.get(), 3, "every wake-up made during a poll must be answered");
}
""")
