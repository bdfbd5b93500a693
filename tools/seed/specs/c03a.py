id='c03-empty-race-ok-pends'; prop='C03'
needs='race_ok over an empty vector.'
breaks='It never ends instead of ending at once with no errors.'
edits=[('async_ui_web_core/src/combinators/race_ok/vec.rs', 'const PEND_IF_EMPTY: bool = false;', 'const PEND_IF_EMPTY: bool = true;')]
demo=('core', r'''
#[test]
fn demo() { null(|| {
    let mut f = Box::pin(race_ok(Vec::<std::future::Ready<Result<(), ()>>>::new()));
    let w = Arc::new(Count::default());
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.into())).is_ready());
}) }
''')
