id="l04-new-options-labelled-once"; prop="L04"
needs="An update_options call that keeps an option and gives it another text."
breaks="The text of an option is set when its element is made; an option that stays keeps its old text."
edits=[("async_ui_web/src/components/dropdown.rs","                map.insert(opt.clone(), elem);\n","                elem.set_text_content(Some(text));\n                map.insert(opt.clone(), elem);\n"),
("async_ui_web/src/components/dropdown.rs","            map.get(&opt).unwrap().set_text_content(Some(text));\n","")]
demo=("dropdown", r'''
fn main() {
    let d = Menu::new();
    d.update_options([(1, "one"), (2, "two")]);
    assert_eq!(d.texts(), "one two");
    d.update_options([(2, "zwei"), (1, "eins"), (3, "drei")]);
    assert_eq!(d.texts(), "zwei eins drei");
}
''')
