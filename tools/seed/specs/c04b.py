id='c04-index-truncated'; prop='C04'
needs='A joined vector of more than 256 rendering children.'
breaks='Children 256 apart get the same place in the document.'
edits=[('async_ui_web_core/src/combinators/common/vec.rs', 'index: index as _,', 'index: index as u8 as _,')]
demo=('core', r'''
use web_sys::Node;
#[test]
fn demo() {
    let root = Node::fake("root");
    let mut f = Box::pin(ContainerNodeFuture::new_root(join((0..300usize).map(|i| async move {
        if i % 257 == 2 { ContainerNodeFuture::new(std::future::pending::<()>(), Node::fake(&i.to_string())).await }
        if i == 257 { ContainerNodeFuture::new(std::future::pending::<()>(), Node::fake(&i.to_string())).await }
    }).collect::<Vec<_>>()), root.clone()));
    let w = Arc::new(Count::default());
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    assert_eq!(root.names(), ["2", "257", "259"]);
}
''')
