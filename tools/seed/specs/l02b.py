id="l02-moved-item-made-anew"; prop="L02"
needs="An update that moves a key whose item has state."
breaks="A key that moves is removed and rendered again instead of moved: its future is dropped and its state lost, although what is shown is in the right order."
edits=[("async_ui_web/src/lists/diffed_list.rs","                    self.dl.move_before(key, prev_keys_iter.peek().cloned());","                    let fut = renderer(key);\n                    self.dl\n                        .insert(key.clone(), fut, prev_keys_iter.peek().cloned());")]
demo=("lists", r'''
fn main() {
    let made = Rc::new(Cell::new(0));
    let m = made.clone();
    let list = DiffedList::new(move |k: &u32| { m.set(m.get() + 1); show(&k.to_string()) });
    let root = Node::fake("root");
    let mut ui = Box::pin(ContainerNodeFuture::new_root(list.render(), root.clone()));
    list.update(vec![1, 2, 3]);
    assert!(tick(&mut ui).is_pending());
    list.update(vec![3, 1, 2]);
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "3 1 2");
    assert_eq!(made.get(), 3, "items that stay are not rendered again");
}
''')
