id="r02-one-waiter-counts-as-empty"; prop="R02"
needs="A list that is given up while it holds exactly one slot (one task waiting), and another list made afterwards."
breaks="A list whose head has the same neighbour on both sides is taken to be empty, which is also true for a list of one: its head is freed while the slot still hangs on it."
edits=[("async_ui_internal_utils/src/wakers_arena.rs","""        if head.next == sublist_head_index {
            head.prev = 0;""","""        if head.next == head.prev {
            head.prev = 0;""")]
demo=("native", r'''
use async_ui_internal_utils::wakers_arena::WakersArena;
fn main() {
    let mut arena = WakersArena::new();
    let a = arena.add_sublist();
    let s = arena.add(&a);
    assert!(!arena.remove_sublist_if_empty(&a), "the list has a slot");
    let b = arena.add_sublist();
    let t = arena.add(&b);
    assert_eq!(arena.iter(&a).take(9).count(), 1);
    assert_eq!(arena.iter(&b).take(9).count(), 1);
    arena.remove(&s);
    arena.remove(&t);
    assert!(arena.remove_sublist_if_empty(&a));
    assert!(arena.remove_sublist_if_empty(&b));
}
''')
