id="l02-next-key-consumed"; prop="L02"
needs="An update in which a key moves towards the front past a key that stays where it is and another that is new or moves."
breaks="The place in the previous keys moves on even when the next previous key is not the current one, so later keys are put at the wrong place."
edits=[("async_ui_web/src/lists/diffed_list.rs","prev_keys_iter.next_if_eq(&key).is_some()","prev_keys_iter.next() == Some(key)")]
demo=("lists", r'''
fn main() {
    let list = DiffedList::new(|k: &char| show(&k.to_string()));
    let root = Node::fake("root");
    let mut ui = Box::pin(ContainerNodeFuture::new_root(list.render(), root.clone()));
    let all = ['a', 'b', 'c', 'd', 'e'];
    for start in ["abc", "abcd", "a"] { for next in ["cab", "bxdac", "acb", "xya", "dcba", "bd", "cxb"] {
        list.update(start.chars().collect());
        list.update(next.chars().collect());
        assert!(tick(&mut ui).is_pending());
        let want = next.chars().map(|c| c.to_string()).collect::<Vec<_>>().join(" ");
        assert_eq!(seen(&root), want, "from {start} to {next}");
    } }
}
''')
