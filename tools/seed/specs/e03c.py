id="e03-passive-forgets-capture"; prop="E03"
needs="A stream with set_capture(true) and then set_passive called."
breaks="set_passive starts a new options object, so a capture option set before is lost (and the listener, registered without it, is removed with it: it stays registered)."
H="async_ui_web_html/src/event_handling.rs"
edits=[(H,"""            .get_or_insert_with(AddEventListenerOptions::new)
            .passive(passive);
""","""            .insert(AddEventListenerOptions::new())
            .passive(passive);
""")]
demo=("events", r'''
fn main() {
    let target = EventTarget::new().unwrap();
    let a = task();
    let mut s = Events::new(target.clone(), "x".into());
    s.set_capture(true);
    s.set_passive(true);
    assert!(poll(&mut s, &a).is_pending());
    assert_eq!(target.listeners(), 1);
    assert!(target.0.borrow()[0].passive);
    assert!(target.0.borrow()[0].capture);
    drop(s);
    assert_eq!(target.listeners(), 0);
}
''')
