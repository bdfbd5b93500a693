id="e03-first-event-kept"; prop="E03"
needs="Two events between two polls of the stream."
breaks="An event that arrives while another is waiting is thrown away, so the stream yields the oldest event instead of the last one."
H="async_ui_web_html/src/event_handling.rs"
edits=[(H,"                    inner.0 = Some(ev.unchecked_into());\n","                    inner.0.get_or_insert_with(|| ev.unchecked_into());\n")]
demo=("events", r'''
fn main() {
    let target = EventTarget::new().unwrap();
    let a = task();
    let mut s = Events::new(target.clone(), "x".into());
    assert!(poll(&mut s, &a).is_pending());
    target.fire("x", &Event::new(1));
    assert_eq!(poll(&mut s, &a), Poll::Ready(Some(1)));
    assert!(poll(&mut s, &a).is_pending());
    target.fire("x", &Event::new(2));
    target.fire("x", &Event::new(3));
    assert_eq!(poll(&mut s, &a), Poll::Ready(Some(3)));
    assert!(poll(&mut s, &a).is_pending());
}
''')
