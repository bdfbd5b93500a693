id="x05-stale-waker"; prop="X05"
needs="A change stream polled again from another task (another waker) before the change."
breaks="The waker is stored on the first poll only, so the change wakes the task that polled first."
edits=[("x-bow/src/until_change.rs","""            entry.set_waker(slot, new_waker);
            ver + entry.get_version()""","""            if this.last_version == 0 {
                entry.set_waker(slot, new_waker);
            }
            ver + entry.get_version()""")]
demo=("native", r'''
use std::{pin::Pin, sync::{Arc, atomic::{AtomicUsize, Ordering}}, task::{Context, Wake, Waker}};
use futures_core::Stream;
#[allow(unused_imports)] use x_bow::{Store, PathExtGuaranteed, PathExt};
struct W(AtomicUsize);
impl Wake for W { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    let store = Store::new(1u32);
    let path = store.build_path();
    let mut s = path.until_change();
    let (a, b) = (Arc::new(W(AtomicUsize::new(0))), Arc::new(W(AtomicUsize::new(0))));
    let (wa, wb) = (Waker::from(a.clone()), Waker::from(b.clone()));
    assert!(Pin::new(&mut s).poll_next(&mut Context::from_waker(&wa)).is_pending());
    assert!(Pin::new(&mut s).poll_next(&mut Context::from_waker(&wb)).is_pending());
    path.set(2);
    assert_eq!(b.0.load(Ordering::SeqCst), 1, "the task that polled last must be woken");
}
''')
