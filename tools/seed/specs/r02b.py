id="r02-freed-slot-keeps-waker"; prop="R02"
needs="A slot that is freed and handed out again to someone who has not set a waker yet when the list is woken."
breaks="Freeing a slot no longer forgets its waker (it is only overwritten when the slot was the last one of its list), so the next owner's slot wakes a task that is long gone."
edits=[("async_ui_internal_utils/src/wakers_arena.rs","""        node.waker = dummy_waker();
        // fix the used list""","""        if old_used_prev == old_used_next {
            node.waker = dummy_waker();
        }
        // fix the used list""")]
demo=("native", r'''
use async_ui_internal_utils::wakers_arena::WakersArena;
use std::{sync::{Arc, atomic::{AtomicU32, Ordering}}, task::{Wake, Waker}};
struct C(AtomicU32); impl Wake for C { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    let c = Arc::new(C(AtomicU32::new(0)));
    let w = Waker::from(c.clone());
    let mut arena = WakersArena::new();
    let a = arena.add_sublist();
    let s = arena.add(&a);
    let t = arena.add(&a);
    arena.update(&t, &w);
    arena.remove(&t);
    let u = arena.add(&a);
    arena.iter(&a).for_each(|w| w.wake_by_ref());
    assert_eq!(c.0.load(Ordering::SeqCst), 0, "the slot with this waker is gone");
    arena.remove(&u);
    arena.remove(&s);
}
''')
