id="r01-waker-kept-after-move"; prop="R01"
needs="A change stream that is polled first by one task and later by another (a future moved into a combinator or another task)."
breaks="The waker is only registered while the stream has no baseline, so after a move the write wakes the former task."
edits=[("async_ui_internal_utils/src/reactive_cell/until_change.rs","""        match this.last_version {
            0 => this.last_version = bm.version,
            lv if lv < bm.version => {
                res = Poll::Ready(Some(()));
                this.last_version = bm.version;
            }
            _ => {}
        }
        bm.listeners.update(&this.waker_slot, cx.waker());
        res""","""        match this.last_version {
            0 => this.last_version = bm.version,
            lv if lv < bm.version => {
                res = Poll::Ready(Some(()));
                this.last_version = bm.version;
            }
            // nothing happened since the last poll: still registered
            _ => return res,
        }
        bm.listeners.update(&this.waker_slot, cx.waker());
        res""")]
demo=("native", r'''
use std::{future::Future, pin::pin, sync::{Arc, atomic::{AtomicU32, Ordering}}, task::{Context, Wake, Waker}};
use async_ui_internal_utils::reactive_cell::ReactiveCell;
struct C(AtomicU32); impl Wake for C { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    let cell = ReactiveCell::new(1u32);
    let (a, b) = (Arc::new(C(AtomicU32::new(0))), Arc::new(C(AtomicU32::new(0))));
    let (wa, wb) = (Waker::from(a.clone()), Waker::from(b.clone()));
    let mut s = pin!(cell.until_change());
    assert!(s.as_mut().poll(&mut Context::from_waker(&wa)).is_pending());
    assert!(s.as_mut().poll(&mut Context::from_waker(&wb)).is_pending());
    *cell.borrow_mut() += 1;
    assert_eq!(b.0.load(Ordering::SeqCst), 1, "the task that polled last is woken");
}
''')
