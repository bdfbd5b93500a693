id="l05-borrowed-while-polled"; prop="L05"
needs="A future in the slot that sends the slot a message while it is polled."
breaks="The slot's channel is borrowed while the future in it is polled, so a page that navigates to another one panics."
edits=[("async_ui_web/src/components/dynamic_slot.rs","            // poll the Future in the slot, if there is one\n","            let channel = self.channel.borrow();\n            if let Message::Set(_) = channel.1 {\n                return Poll::Pending;\n            }\n")]
demo=("slot", r'''
fn main() {
    let slot: Rc<DynamicSlot<Fut>> = Rc::new(DynamicSlot::new());
    let a = task();
    let s2 = slot.clone();
    let mut r = Box::pin(async move { s2.render().await });
    let n = Rc::new(Cell::new(0));
    let (s3, n2) = (slot.clone(), n.clone());
    slot.set_future(Box::pin(async move { s3.set_future(shows(&n2)); std::future::pending().await }));
    poll(&mut r, &a);
    poll(&mut r, &a);
    assert_eq!(n.get(), 1);
}
''')
