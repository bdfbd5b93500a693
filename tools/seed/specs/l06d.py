id="l06-jump-up-reversed"; prop="L06"
needs="Scrolling up further than what is rendered."
breaks="Items are added in front of each other from the last to the first; when none of the items shown stays, they end up in reverse order."
edits=[("async_ui_web/src/lists/virtualized_list.rs","        for to_add in new_start..new_end.min(state.range.start) {\n            self.list\n                .insert(to_add, (state.renderer)(to_add), remaining.as_ref());\n        }\n","        let mut before = remaining;\n        for to_add in (new_start..new_end.min(state.range.start)).rev() {\n            self.list\n                .insert(to_add, (state.renderer)(to_add), before.as_ref());\n            before = remaining.map(|_| to_add);\n        }\n")]
demo=("virtual", r'''
fn main() {
    let (root, c) = (el(0), Count::default());
    let list = VirtualizedList::new(&root, el(1), el(2), renderer(&c));
    list.set_num_items(1000);
    for y in [0.0, 3000.0, 0.0, 5000.0, 5100.0, 4900.0] {
        scroll_to(y);
        list.set_num_items(1000);
        list.set_num_items(1000);
        good(1000);
    }
}
''')
