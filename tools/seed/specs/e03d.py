id="e03-listener-kept-by-waiting-event"; prop="E03"
needs="A stream dropped while an event that was not polled yet is waiting."
breaks="A stream that is dropped with an event waiting leaves its listener registered; the next event of that kind calls a closure that no longer exists."
H="async_ui_web_html/src/event_handling.rs"
edits=[(H,"        if let Some(callback) = self.closure.take() {\n","        if self.shared.borrow().0.is_some() {\n            return;\n        }\n        if let Some(callback) = self.closure.take() {\n")]
demo=("events", r'''
fn main() {
    let target = EventTarget::new().unwrap();
    let a = task();
    let mut s = Events::new(target.clone(), "x".into());
    assert!(poll(&mut s, &a).is_pending());
    drop(s);
    assert_eq!(target.listeners(), 0);
    let mut s = Events::new(target.clone(), "x".into());
    assert!(poll(&mut s, &a).is_pending());
    target.fire("x", &Event::new(1));
    drop(s);
    assert_eq!(target.listeners(), 0);
    target.fire("x", &Event::new(2));
}
''')
