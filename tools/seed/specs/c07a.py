id='c07-inner-index-first'; prop='C07'
needs='Nested combinators whose inner indices disagree with the outer order.'
breaks='Nodes are ordered by the innermost combinator first.'
edits=[('async_ui_web_core/src/position.rs', 'for (e1, e2) in s1.iter().rev().zip(s2.iter().rev()) {', 'for (e1, e2) in s1.iter().zip(s2.iter()) {')]
demo=('core', r'''
use web_sys::Node;
fn el(n: &str) -> ContainerNodeFuture<std::future::Pending<()>> { ContainerNodeFuture::new(std::future::pending(), Node::fake(n)) }
#[test]
fn demo() {
    let root = Node::fake("root");
    let mut f = Box::pin(ContainerNodeFuture::new_root(join((join((el("a"), el("b"))), join((el("c"), el("d"))))), root.clone()));
    let w = Arc::new(Count::default());
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    assert_eq!(root.names(), ["a", "b", "c", "d"]);
}
''')
