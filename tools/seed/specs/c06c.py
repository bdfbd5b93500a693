id='c06-blocker-taken-over'; prop='C06'
needs='An element with at least two rendered children is dropped while no rendering context is set (a mounted root that is unmounted, say).'
breaks='After the first child is dropped the rest try to detach themselves again; without a rendering context that panics.'
edits=[('async_ui_web_core/src/dropping.rs', '''            if cell.get().is_null() {
                cell.set(self as *const DetachmentBlocker);
                false
            } else {
                true
            }''', '''            let previous = cell.replace(self as *const DetachmentBlocker);
            !previous.is_null()''')]
demo=('core', r'''
use web_sys::Node;
fn el(n: &str) -> ContainerNodeFuture<std::future::Pending<()>> { ContainerNodeFuture::new(std::future::pending(), Node::fake(n)) }
#[test]
fn demo() {
    let root = Node::fake("root");
    let mut f = Box::pin(ContainerNodeFuture::new_root(join((el("a"), el("b"))), root.clone()));
    let w = Arc::new(Count::default());
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    assert_eq!(root.names(), ["a", "b"]);
    drop(f);
    assert_eq!(root.names(), Vec::<String>::new());
}
''')
