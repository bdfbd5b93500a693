id='c01-poll-budget'; prop='C01'
needs='A vector of more than 64 children awake at the same poll.'
breaks='Children over the budget are taken off the wake list without being polled, and nothing requests a later poll.'
edits=[('async_ui_web_core/src/combinators/common/vec.rs', 'for index in this.awake_list_buffer.drain(..) {', 'for index in this.awake_list_buffer.drain(..).take(64) {')]
demo=('core', r'''
#[test]
fn demo() { null(|| {
    let mut f = Box::pin(join((0..100).map(|i| async move { i }).collect::<Vec<_>>()));
    let w = Arc::new(Count::default());
    for _ in 0..5 { if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w.clone().into())) { assert_eq!(v.len(), 100); return } }
    panic!("never finishes");
}) }
''')
