id='c06-removes-one-per-position'; prop='C06'
needs='A nested combinator whose child is itself a combinator with several elements, dropped as a whole while other children stay.'
breaks='Only the last of its elements leaves the page.'
edits=[('async_ui_web_core/src/context.rs', '''        while let Some((key, child)) = tree.range(range.clone()).next_back() {
            container.remove_child(child).unwrap_throw();
            tree.remove(&key.clone());
        }''', '''        let mut last = None;
        if let Some((key, child)) = tree.range(range).next_back() {
            container.remove_child(child).unwrap_throw();
            last = Some(key.clone());
        }
        if let Some(key) = last {
            tree.remove(&key);
        }''')]
demo=('core', r'''
use web_sys::Node;
fn el(n: &str) -> ContainerNodeFuture<std::future::Pending<()>> { ContainerNodeFuture::new(std::future::pending(), Node::fake(n)) }
#[test]
fn demo() {
    let root = Node::fake("root");
    let go = Rc::new(Cell::new(false));
    let g = go.clone();
    let first = async move {
        race((join((el("a"), el("b"))), poll_fn(|cx| { if g.get() { Poll::Ready(((), ())) } else { cx.waker().wake_by_ref(); Poll::Pending } }))).await;
        std::future::pending::<()>().await
    };
    let mut f = Box::pin(ContainerNodeFuture::new_root(join((first, el("c"))), root.clone()));
    let w = Arc::new(Count::default());
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    assert_eq!(root.names(), ["a", "b", "c"]);
    go.set(true);
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    assert_eq!(root.names(), ["c"]);
}
''')
