id="x05-drop-first-slot"; prop="X05"
needs="A subscription to a nested datum dropped while the root datum has no other subscriber, then new subscriptions."
breaks="Dropping a stream leaves the outermost slot registered; its waker leaks and is woken for ever."
edits=[("x-bow/src/until_change.rs","""        self.slots.iter().for_each(|(hash, slot)| {
            store.remove_waker_slot(*hash, slot);""","""        let nested = self.slots.len() > 2;
        self.slots.iter().skip(nested as usize).for_each(|(hash, slot)| {
            store.remove_waker_slot(*hash, slot);""")]
demo=("native", r'''
use std::{pin::Pin, sync::{Arc, atomic::{AtomicUsize, Ordering}}, task::{Context, Wake, Waker}};
use futures_core::Stream;
#[allow(unused_imports)] use x_bow::{Store, PathExtGuaranteed, PathExt, Trackable};
#[derive(Trackable)] #[track(deep)] struct A { b: B }
#[derive(Trackable)] #[track(deep)] struct B { c: u32 }
struct W(AtomicUsize);
impl Wake for W { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    let store = Store::new(A { b: B { c: 1 } });
    let root = store.build_path();
    let path = store.build_path().b().c();
    let a = Arc::new(W(AtomicUsize::new(0)));
    let wa = Waker::from(a.clone());
    {
        let mut s = path.until_change();
        assert!(Pin::new(&mut s).poll_next(&mut Context::from_waker(&wa)).is_pending());
    }
    drop(root.borrow_mut());
    assert_eq!(a.0.load(Ordering::SeqCst), 0, "a dropped stream must not be woken");
}
''')
