id="l06-shrinking-forgets-last-items"; prop="L06"
needs="A list that becomes shorter than what it shows."
breaks="Making the list shorter cuts the range it remembers before the items past the new end are removed, so they stay."
edits=[("async_ui_web/src/lists/virtualized_list.rs","        self.state.borrow_mut().num_items = num;\n        self.update_visible();\n","        {\n            let mut state = self.state.borrow_mut();\n            state.num_items = num;\n            state.range.end = state.range.end.min(num);\n        }\n        self.update_visible();\n")]
demo=("virtual", r'''
fn main() {
    let (root, c) = (el(0), Count::default());
    let list = VirtualizedList::new(&root, el(1), el(2), renderer(&c));
    list.set_num_items(6);
    good(6);
    assert_eq!(shown().len(), 6);
    list.set_num_items(4);
    good(4);
    list.set_num_items(30);
    good(30);
}
''')
