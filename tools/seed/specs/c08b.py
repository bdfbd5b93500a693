id="c08-early-run-wedges"
prop="C08"
needs="run_now is called (an event handler, a queued callback) before the root future is set for the first time"
breaks="run_now leaves the executor marked active for ever, so nothing is ever polled once the app is mounted"
edits=[("async_ui_web_core/src/executor.rs", """        if !was_active {
            while exe.scheduled.replace(false) {
                let mut cx = Context::from_waker(&exe.waker);
                if let Some(fu) = exe.future.borrow_mut().as_mut() {
                    let _ = fu.as_mut().poll(&mut cx);
                }
            }
            exe.active.set(false);
        }
""", """        if !was_active {
            let mut future = exe.future.borrow_mut();
            let Some(fu) = future.as_mut() else {
                return;
            };
            while exe.scheduled.replace(false) {
                let mut cx = Context::from_waker(&exe.waker);
                let _ = fu.as_mut().poll(&mut cx);
            }
            drop(future);
            exe.active.set(false);
        }
""")]
demo=("core", """
use crate::executor::{run_now, schedule, set_executor_future};
#[test]
fn run_before_the_app_is_mounted() {
    run_now();
    let polls = Rc::new(Cell::new(0));
    let p = polls.clone();
    set_executor_future(Box::new(poll_fn(move |_: &mut Context<'_>| {
        p.set(p.get() + 1);
        Poll::<()>::Pending
    })));
    schedule();
    let mut ran = 0;
    while ran < web_sys::TIMEOUTS.with(|t| t.get()) && ran < 10 {
        ran += 1;
        run_now();
    }
    assert_eq!(polls.get(), 1, "a scheduled app must be polled");
}
""")
