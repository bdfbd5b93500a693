id="l01-blocker-dropped-first"; prop="L01"
needs="A list that is dropped while its items are in the page (for example with the component that owns it)."
breaks="The blocker is declared before the tasks, so it is dropped first and stops blocking before the tasks' futures are dropped; they then look for their nodes where no DOM context is."
edits=[("async_ui_web/src/lists/dynamic_list.rs","""pub struct DynamicList<'c, K: Eq + Hash, F: Future + 'c> {
    inner: RefCell<DynamicListInner<K, F>>,
    executor: LocalExecutor<'c>,
    list_end_marker: web_sys::Node,
    list_start_marker: web_sys::Node,
    detachment_blocker: DetachmentBlocker,
}""","""pub struct DynamicList<'c, K: Eq + Hash, F: Future + 'c> {
    list_end_marker: web_sys::Node,
    list_start_marker: web_sys::Node,
    detachment_blocker: DetachmentBlocker,
    inner: RefCell<DynamicListInner<K, F>>,
    executor: LocalExecutor<'c>,
}""")]
demo=("lists", r'''
fn main() {
    let root = Node::fake("root");
    {
        let list: DynamicList<u32, Fut> = DynamicList::new();
        list.insert(1, show("a"), None);
        list.insert(2, show("b"), None);
        {
            let mut ui = Box::pin(ContainerNodeFuture::new_root(list.render(), root.clone()));
            assert!(tick(&mut ui).is_pending());
            assert_eq!(seen(&root), "a b");
        }
        assert_eq!(seen(&root), "");
    }
}
''')
