id="l04-selection-left-to-the-browser"; prop="L04"
needs="The selected option leaves the menu while others stay."
breaks="When the selected option goes away the menu is not deselected, so the browser selects its first option and value() answers something nobody chose."
edits=[("async_ui_web/src/components/dropdown.rs","""            sel.set_selected(true);
        } else {
            self.select.set_value("");
        }
    }
    pub async""","""            sel.set_selected(true);
        } else if selected.is_none() {
            self.select.set_value("");
        }
    }
    pub async""")]
demo=("dropdown", r'''
fn main() {
    let d = Menu::new();
    d.update_options([(1, "one"), (2, "two"), (3, "three")]);
    d.set_selected_index(1); // the user
    d.update_options([(1, "one"), (3, "three")]);
    assert_eq!(d.texts(), "one three");
    assert_eq!(d.selected_index(), -1);
}
''')
