id="l06-far-jump-renders-between"; prop="L06"
needs="Scrolling further down than what is rendered and then back up."
breaks="After a jump past everything rendered the list also renders the items in between, which it then never removes: later they stand among items far away."
edits=[("async_ui_web/src/lists/virtualized_list.rs","for to_add in new_start.max(state.range.end)..new_end {","for to_add in state.range.end.max(state.range.start.min(new_start))..new_end {")]
demo=("virtual", r'''
fn main() {
    let (root, c) = (el(0), Count::default());
    let list = VirtualizedList::new(&root, el(1), el(2), renderer(&c));
    list.set_num_items(1000);
    good(1000);
    for y in [3000.0, 0.0, 5000.0, 200.0] {
        scroll_to(y);
        list.set_num_items(1000);
        good(1000);
    }
}
''')
