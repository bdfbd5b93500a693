id="l05-waker-not-stored-with-message"; prop="L05"
needs="A slot moved to another task, whose first poll there finds a message; a later message is then sent."
breaks="A poll that finds a message does not store its waker, so after the slot was taken over by another task the next message wakes the old one."
edits=[("async_ui_web/src/components/dynamic_slot.rs","                if !channel.0.will_wake(cx.waker()) {\n","                if matches!(channel.1, Message::NoChange) && !channel.0.will_wake(cx.waker()) {\n")]
demo=("slot", r'''
fn main() {
    let slot: Rc<DynamicSlot<Fut>> = Rc::new(DynamicSlot::new());
    let (a, b) = (task(), task());
    let s2 = slot.clone();
    let mut r = Box::pin(async move { s2.render().await });
    poll(&mut r, &a);
    let n = Rc::new(Cell::new(0));
    slot.set_future(shows(&n));
    assert_eq!(woken(&a), 1);
    poll(&mut r, &b);
    assert_eq!(n.get(), 1);
    slot.clear_future();
    assert_eq!(woken(&b), 1);
}
''')
