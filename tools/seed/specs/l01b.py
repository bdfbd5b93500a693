id="l01-rerender-in-map-order"; prop="L01"
needs="A list with several items whose rendering is dropped and which is rendered again."
breaks="When the rendering is dropped the items are taken off one by one as the map yields them, so the next rendering shows them in another order."
edits=[("async_ui_web/src/lists/dynamic_list.rs","""            move_nodes_before(
                fragment.as_ref(),
                &self.list_start_marker,
                &self.list_end_marker,
                None,
            );
            inner.containing_node""","""            let mut last = self.list_start_marker.clone();
            move_nodes_before(fragment.as_ref(), &last, &last, None);
            for item in inner.items.values() {
                last = item.end_marker.clone();
                move_nodes_before(fragment.as_ref(), &item.start_marker, &last, None);
            }
            last = self.list_end_marker.clone();
            move_nodes_before(fragment.as_ref(), &last, &last, None);
            inner.containing_node""")]
demo=("lists", r'''
fn main() {
    let list: DynamicList<u32, Fut> = DynamicList::new();
    let names = ["a", "b", "c", "d", "e", "f", "g", "h"];
    for (k, n) in names.iter().enumerate() { list.insert(k as u32, show(n), None); }
    for _ in 0..3 {
        let root = Node::fake("root");
        let mut ui = Box::pin(ContainerNodeFuture::new_root(list.render(), root.clone()));
        assert!(tick(&mut ui).is_pending());
        assert_eq!(seen(&root), "a b c d e f g h");
        drop(ui);
    }
}
''')
