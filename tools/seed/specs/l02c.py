id="l02-same-keys-other-order"; prop="L02"
needs="An update to the same keys in an order that differs, beginning and ending alike."
breaks="update takes a vector with the same first and last key and the same length, all of whose keys are there, for the one it has, and returns without moving anything."
edits=[("async_ui_web/src/lists/diffed_list.rs","        let mut prev_keys_iter = prev_keys_list.iter().peekable();\n","""        if prev_keys_list.len() == new_keys.len()
            && prev_keys_list.first() == new_keys.first()
            && prev_keys_list.last() == new_keys.last()
            && new_keys.iter().all(|key| prev_keys_set.contains(key))
        {
            // nothing to do
            return;
        }
        let mut prev_keys_iter = prev_keys_list.iter().peekable();
""")]
demo=("lists", r'''
fn main() {
    let list = DiffedList::new(|k: &u32| show(&k.to_string()));
    let root = Node::fake("root");
    let mut ui = Box::pin(ContainerNodeFuture::new_root(list.render(), root.clone()));
    list.update(vec![1, 2, 3, 4]);
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "1 2 3 4");
    list.update(vec![1, 3, 2, 4]);
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "1 3 2 4");
}
''')
