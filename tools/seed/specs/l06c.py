id="l06-clears-when-scrolled-down"; prop="L06"
needs="Scrolling down so that some of the items shown stay, and then up again."
breaks="The list is cleared whenever the first item shown does not stay, so items that should stay vanish, and later items are put in the wrong place."
edits=[("async_ui_web/src/lists/virtualized_list.rs","            .then_some(state.range.start);\n","            .then_some(state.range.start);\n        if remaining.is_none() {\n            for i in state.range.clone() {\n                self.list.remove(&i);\n            }\n        }\n")]
demo=("virtual", r'''
fn main() {
    let (root, c) = (el(0), Count::default());
    let list = VirtualizedList::new(&root, el(1), el(2), renderer(&c));
    list.set_num_items(1000);
    let (mut y, mut r) = (0u32, 1u32);
    for _ in 0..400 {
        r = r.wrapping_mul(1103515245).wrapping_add(12345);
        let far = (r >> 16) % 300;
        y = if (r >> 8) & 1 == 0 { y + far } else { y.saturating_sub(far) };
        scroll_to(y as f64);
        list.set_num_items(1000);
        good(1000);
    }
}
''')
