id="l03-version-of-the-other-model"; prop="L03"
needs="A list updated to one model and then to another with fewer changes, which is then changed and updated again."
breaks="When the list sees another model it does not remember that model's version, so later updates count that model's changes from the version of the first."
edits=[("async_ui_web/src/lists/modeled_list.rs","            self.version.set(new_ver);\n            None","            None")]
demo=("lists", r'''
fn main() {
    let list = ModeledList::new(|k: &u32| show(&k.to_string()));
    let root = Node::fake("root");
    let mut ui = Box::pin(ContainerNodeFuture::new_root(list.render(), root.clone()));
    let mut a = ListModel::from(vec![1, 2, 3, 4, 5, 6]);
    list.update(&a);
    a.swap(0, 1);
    a.swap(0, 1);
    list.update(&a);
    let mut b = ListModel::from(vec![1, 2, 3, 4]);
    list.update(&b);
    b.push(5);
    list.update(&b);
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "1 2 3 4 5");
}
''')
