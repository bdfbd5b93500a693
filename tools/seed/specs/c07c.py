id='c06-sibling-tail-goes-last'; prop='C07'
needs='A list item that renders when nothing of it is on the page yet, with other content after the list.'
breaks='The item goes to the end of the enclosing element instead of in front of its marker.'
edits=[('async_ui_web_core/src/context.rs', '''                    .map(|(_k, v)| v)
                    .unwrap_or(*reference);
                parent
                    .get_containing_node()
                    .insert_before(&new_child, Some(reference_sibling))
                    .unwrap_throw();''', '''                    .map(|(_k, v)| v)
                    .or((group.len() == 0).then_some(*reference));
                parent
                    .get_containing_node()
                    .insert_before(&new_child, reference_sibling)
                    .unwrap_throw();''')]
demo=('core', r'''
use web_sys::Node;
use crate::SiblingNodeFuture;
fn el(n: &str) -> ContainerNodeFuture<std::future::Pending<()>> { ContainerNodeFuture::new(std::future::pending(), Node::fake(n)) }
#[test]
fn demo() {
    let root = Node::fake("root");
    let marker = Node::fake("marker");
    root.append_child(&marker).unwrap();
    let mut f = Box::pin(ContainerNodeFuture::new_root(SiblingNodeFuture::new(join((el("a"), el("b"))), marker), root.clone()));
    let w = Arc::new(Count::default());
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    assert_eq!(root.names(), ["a", "b", "marker"]);
}
''')
