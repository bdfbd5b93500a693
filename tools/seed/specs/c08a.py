id="c08-nested-run-takes-wake"
prop="C08"
needs="the app wakes itself while it is being polled and then, still inside the poll, something calls run_now again (for example a DOM method that dispatches an event synchronously, like element.click())"
breaks="the nested run_now takes the pending wake-up and then finds the executor active, so the wake-up is never answered"
edits=[("async_ui_web_core/src/executor.rs", """        let was_active = exe.active.replace(true);
        if !was_active {
            while exe.scheduled.replace(false) {
                let mut cx = Context::from_waker(&exe.waker);
                if let Some(fu) = exe.future.borrow_mut().as_mut() {
                    let _ = fu.as_mut().poll(&mut cx);
                }
            }
            exe.active.set(false);
        }
""", """        let mut pending = exe.scheduled.replace(false);
        let was_active = exe.active.replace(true);
        if !was_active {
            while pending {
                let mut cx = Context::from_waker(&exe.waker);
                if let Some(fu) = exe.future.borrow_mut().as_mut() {
                    let _ = fu.as_mut().poll(&mut cx);
                }
                pending = exe.scheduled.replace(false);
            }
            exe.active.set(false);
        }
""")]
demo=("core", """
use crate::executor::{run_now, schedule, set_executor_future};
#[test]
fn wake_then_nested_run() {
    let polls = Rc::new(Cell::new(0));
    let p = polls.clone();
    set_executor_future(Box::new(poll_fn(move |cx: &mut Context<'_>| {
        p.set(p.get() + 1);
        if p.get() == 1 {
            cx.waker().wake_by_ref();
            run_now();
        }
        Poll::<()>::Pending
    })));
    schedule();
    // the browser runs the queued callbacks
    let mut ran = 0;
    while ran < web_sys::TIMEOUTS.with(|t| t.get()) && ran < 10 {
        ran += 1;
        run_now();
    }
    assert_eq!(polls.get(), 2, "the wake-up made during the first poll must be answered");
}
""")
