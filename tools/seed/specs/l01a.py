id="l01-replaced-item-goes-last"; prop="L01"
needs="An insert of a key that is already in the list, before that very key (replacing an item in place)."
breaks="The old item is taken off before the place for the new one is looked up, so replacing an item in place moves it to the end of the list."
edits=[("async_ui_web/src/lists/dynamic_list.rs","""    pub fn insert(&self, key: K, future: F, before: Option<&K>) -> bool {
        let mut inner = self.inner.borrow_mut();
""","""    pub fn insert(&self, key: K, future: F, before: Option<&K>) -> bool {
        let replaced = self.remove(&key);
        let mut inner = self.inner.borrow_mut();
"""),("async_ui_web/src/lists/dynamic_list.rs","""        if let Some(Stored {
            task,
            start_marker,
            end_marker,
        }) = inner.items.insert(key, stored)
        {
            drop(task);
            let container = inner.containing_node.get();
            let _ = container.remove_child(&start_marker).unwrap_throw();
            let _ = container.remove_child(&end_marker).unwrap_throw();
            true
        } else {
            false
        }
""","""        inner.items.insert(key, stored);
        replaced
""")]
demo=("lists", r'''
fn main() {
    let list: DynamicList<u32, Fut> = DynamicList::new();
    for (k, n) in [(1, "a"), (2, "b"), (3, "c")] { assert!(!list.insert(k, show(n), None)); }
    let root = Node::fake("root");
    let mut ui = Box::pin(ContainerNodeFuture::new_root(list.render(), root.clone()));
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "a b c");
    assert!(list.insert(3, show("C"), None));
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "a b C");
    assert!(list.insert(1, show("A"), Some(&1)));
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "A b C", "inserted before the item it replaces");
}
''')
