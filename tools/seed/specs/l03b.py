id="l03-one-change-forgotten"; prop="L03"
needs="Exactly one change more since the last update than the model's log holds."
breaks="A list one change behind the beginning of the log is updated from the log as well, and the forgotten change is never applied."
edits=[("async_ui_web/src/lists/modeled_list.rs","if old_ver >= log_start_ver =>","if old_ver + 1 >= log_start_ver =>"),
("async_ui_web/src/lists/modeled_list.rs",".skip((old_ver - log_start_ver) as usize)",".skip(old_ver.saturating_sub(log_start_ver) as usize)")]
demo=("lists", r'''
fn main() {
    for changes in 1..6 {
        let list = ModeledList::new(|k: &u32| show(&k.to_string()));
        let root = Node::fake("root");
        let mut ui = Box::pin(ContainerNodeFuture::new_root(list.render(), root.clone()));
        let mut a = ListModel::from(vec![1, 2, 3, 4]);
        list.update(&a);
        for c in 0..changes { a.swap(c % 4, (c + 1) % 4); }
        list.update(&a);
        assert!(tick(&mut ui).is_pending());
        assert_eq!(seen(&root), a.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" "), "{changes} changes");
    }
}
''')
