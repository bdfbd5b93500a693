id='c06-range-outer-segment'; prop='C06'
needs='Two combinators nested in each other, of which the inner child is dropped while a sibling of the inner one stays.'
breaks='Removing a nested child also takes later nodes of its siblings off the page.'
edits=[('async_ui_web_core/src/position.rs', '        content[0] += 1;', '        if let Some(segment) = content.last_mut() {\n            *segment += 1;\n        }')]
demo=('core', r'''
use web_sys::Node;
fn el(n: &str) -> ContainerNodeFuture<std::future::Pending<()>> { ContainerNodeFuture::new(std::future::pending(), Node::fake(n)) }
#[test]
fn demo() {
    let root = Node::fake("root");
    let go = Rc::new(Cell::new(false));
    let g = go.clone();
    // join [ join [ (a, then nothing), b ], c ]
    let first = async move {
        let mut a = Box::pin(el("a"));
        poll_fn(|cx| { let _ = a.as_mut().poll(cx); if g.get() { Poll::Ready(()) } else { cx.waker().wake_by_ref(); Poll::Pending } }).await;
        drop(a);
        std::future::pending::<()>().await
    };
    let mut f = Box::pin(ContainerNodeFuture::new_root(join((join((first, el("b"))), el("c"))), root.clone()));
    let w = Arc::new(Count::default());
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    assert_eq!(root.names(), ["a", "b", "c"]);
    go.set(true);
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    assert_eq!(root.names(), ["b", "c"]);
}
''')
