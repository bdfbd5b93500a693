id="e03-waker-of-the-first-poll"; prop="E03"
needs="A stream first polled by one task and then, with no event waiting, by another."
breaks="Only the first poll stores its waker, so after another task has taken over the stream an event wakes the task that had it before."
H="async_ui_web_html/src/event_handling.rs"
edits=[(H,"""        {
            let shared = &mut *this.shared.borrow_mut();
            let waker = cx.waker();
            if !shared.1.will_wake(waker) {
                shared.1 = waker.to_owned();
            }
        }

        if this.closure.is_none() {
""","""        if this.closure.is_none() {
            this.shared.borrow_mut().1 = cx.waker().to_owned();
""")]
demo=("events", r'''
fn main() {
    let target = EventTarget::new().unwrap();
    let (a, b) = (task(), task());
    let mut s = Events::new(target.clone(), "x".into());
    assert!(poll(&mut s, &a).is_pending());
    target.fire("x", &Event::new(1));
    assert_eq!(woken(&a), 1);
    assert_eq!(poll(&mut s, &b), Poll::Ready(Some(1)));
    assert!(poll(&mut s, &b).is_pending());
    target.fire("x", &Event::new(2));
    assert_eq!(woken(&b), 1);
}
''')
