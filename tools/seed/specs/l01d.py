id="l01-items-grow-out-of-their-markers"; prop="L01"
needs="A move or swap of an item that shows something, after it was rendered."
breaks="An item's future is rendered before the item's start marker instead of its end marker: the list looks right until an item is moved, which leaves the item's nodes behind."
edits=[("async_ui_web/src/lists/dynamic_list.rs","""        let end_marker_cloned = end_marker.clone();
        let task = self
            .executor
            .spawn(SiblingNodeFuture::new(future, end_marker_cloned));
""","""        let marker_cloned = start_marker.clone();
        let task = self
            .executor
            .spawn(SiblingNodeFuture::new(future, marker_cloned));
""")]
demo=("lists", r'''
fn main() {
    let list: DynamicList<u32, Fut> = DynamicList::new();
    for (k, n) in [(1, "a"), (2, "b"), (3, "c")] { assert!(!list.insert(k, show(n), None)); }
    let root = Node::fake("root");
    let mut ui = Box::pin(ContainerNodeFuture::new_root(list.render(), root.clone()));
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "a b c");
    list.move_before(&3, Some(&1));
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "c a b");
}
''')
