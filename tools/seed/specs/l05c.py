id="l05-early-message-lost"; prop="L05"
needs="A future set before the slot is first polled."
breaks="Rendering starts with an empty channel, so a future that was set before the first poll never shows."
edits=[("async_ui_web/src/components/dynamic_slot.rs","        let mut fut_slot: Pin<&mut Option<F>> = pin!(None);\n","        let mut fut_slot: Pin<&mut Option<F>> = pin!(None);\n        drop(self.channel.replace((dummy_waker(), Message::NoChange)));\n"),
("async_ui_web/src/components/dynamic_slot.rs","    /// This async method never completes.\n","    /// This async method never completes, and starts with an empty slot.\n")]
demo=("slot", r'''
fn main() {
    let slot: Rc<DynamicSlot<Fut>> = Rc::new(DynamicSlot::new());
    let a = task();
    let s2 = slot.clone();
    let n = Rc::new(Cell::new(0));
    slot.set_future(shows(&n));
    let mut r = Box::pin(async move { s2.render().await });
    poll(&mut r, &a);
    assert_eq!(n.get(), 1);
}
''')
