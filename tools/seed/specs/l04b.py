id="l04-remembered-before-shown"; prop="L04"
needs="A value set by set_value, after which the user selects another option."
breaks="value() prefers what set_value was given last to what the menu shows, so the user's choice is not seen."
edits=[("async_ui_web/src/components/dropdown.rs","""            .then(|| inner.prev_opts_list.get(si as usize).cloned())
            .flatten()
            .or_else(|| inner.selected.clone())
""","""            .then(|| inner.selected.clone().or_else(|| inner.prev_opts_list.get(si as usize).cloned()))
            .flatten()
""")]
demo=("dropdown", r'''
fn main() {
    let d = Menu::new();
    d.update_options([(1, "one"), (2, "two"), (3, "three")]);
    assert_eq!(d.value(), None);
    d.set_value(Some(2));
    assert_eq!(d.value(), Some(2));
    d.set_selected_index(2); // the user
    assert_eq!(d.value(), Some(3));
}
''')
