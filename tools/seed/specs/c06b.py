id='c06-instant-child-stays'; prop='C06'
needs='An element whose content finishes on the very first poll, in a parent that lives on.'
breaks='The element is left on the page after its future is dropped.'
edits=[('async_ui_web_core/src/node_container.rs', '''        if matches!(this.add_self, AddSelfMode::ShouldAdd) {
            *this.add_self = AddSelfMode::Added;
            DOM_CONTEXT.with(''', '''        let first_poll = matches!(this.add_self, AddSelfMode::ShouldAdd);
        if first_poll {
            DOM_CONTEXT.with('''),
 ('async_ui_web_core/src/node_container.rs', '''        DOM_CONTEXT.set(&ctx, || this.child_future.poll(cx))
''', '''        let result = DOM_CONTEXT.set(&ctx, || this.child_future.poll(cx));
        if first_poll && result.is_pending() {
            *this.add_self = AddSelfMode::Added;
        }
        result
''')]
demo=('core', r'''
use web_sys::Node;
#[test]
fn demo() {
    let root = Node::fake("root");
    let mut f = Box::pin(ContainerNodeFuture::new_root(async {
        ContainerNodeFuture::new(async {}, Node::fake("gone")).await;
        ContainerNodeFuture::new(std::future::pending::<()>(), Node::fake("stays")).await;
    }, root.clone()));
    let w = Arc::new(Count::default());
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = f.as_mut().poll(&mut Context::from_waker(&w.clone().into())); }));
    assert_eq!(root.names(), ["stays"]);
}
''')
