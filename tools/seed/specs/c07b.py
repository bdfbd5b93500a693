id='c07-zero-segment-dropped'; prop='C07'
needs='A combinator nested as the first child of another.'
breaks='Positions of different nodes collide: the first child of the outer one with the inner children.'
edits=[('async_ui_web_core/src/position.rs', '        self.0.push(index);', '        // leading zeros do not change the order\n        if index != 0 || self.0.is_empty() {\n            self.0.push(index);\n        }')]
demo=('core', r'''
use web_sys::Node;
fn el(n: &str) -> ContainerNodeFuture<std::future::Pending<()>> { ContainerNodeFuture::new(std::future::pending(), Node::fake(n)) }
#[test]
fn demo() {
    let root = Node::fake("root");
    let mut f = Box::pin(ContainerNodeFuture::new_root(join((join((el("a"), el("b"))), el("c"))), root.clone()));
    let w = Arc::new(Count::default());
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    assert_eq!(root.names(), ["a", "b", "c"]);
}
''')
