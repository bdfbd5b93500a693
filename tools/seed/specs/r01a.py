id="r01-write-while-unheard"; prop="R01"
needs="A change stream with a baseline (polled once) and two writes between the wake-up and the poll that answers it."
breaks="A waiting stream reports a change only when the version moved by exactly one, so with two writes before its next poll it never fires again."
edits=[("async_ui_internal_utils/src/reactive_cell/until_change.rs","""            lv if lv < bm.version => {
                res = Poll::Ready(Some(()));
                this.last_version = bm.version;
            }
            _ => {}""","""            lv => {
                // the version moves by one for each change
                if bm.version - lv == 1 {
                    res = Poll::Ready(Some(()));
                    this.last_version = bm.version;
                }
            }""")]
demo=("native", r'''
use std::{future::Future, pin::pin, sync::Arc, task::{Context, Wake, Waker}};
use async_ui_internal_utils::reactive_cell::ReactiveCell;
struct N; impl Wake for N { fn wake(self: Arc<Self>) {} }
fn main() {
    let cell = ReactiveCell::new(1u32);
    let w = Waker::from(Arc::new(N));
    let mut cx = Context::from_waker(&w);
    let mut s = pin!(cell.until_change());
    assert!(s.as_mut().poll(&mut cx).is_pending());
    *cell.borrow_mut() += 1;
    *cell.try_borrow_mut().unwrap() += 1;
    assert!(s.as_mut().poll(&mut cx).is_ready(), "two writes between polls are a change");
    assert!(s.as_mut().poll(&mut cx).is_pending());
}
''')
