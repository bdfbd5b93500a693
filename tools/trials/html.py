C = "async_ui_web_html/src/common_components.rs"
E = "async_ui_web_html/src/common_events.rs"
H = "async_ui_web_html/src/event_handling.rs"
I = "async_ui_web_html/src/input_types.rs"
F1, Q1 = {"E01": "fire"}, {"E01": "quiet"}
F2, Q2 = {"E02": "fire"}, {"E02": "quiet"}
NEW = """                Self {
                    element: create_element($tag_name),
                }
"""
SET = """        input.set_type(ty);
        input
"""
CHILDED = "ContainerNodeFuture::new(c, AsRef::<web_sys::Node>::as_ref(&self.element).clone())"
CHILDLESS = """                ContainerNodeFuture::new(
                    pending(),
                    AsRef::<web_sys::Node>::as_ref(&self.element).clone(),
                )
"""
EV = "            self.as_ref().until_event($ev_name.into())\n"
# E01, the same behaviour
T("new-with-let", [(C, NEW, "                let element = create_element($tag_name);\n                Self { element }\n")], Q1)
T("into-node", [(C, CHILDED, "ContainerNodeFuture::new(c, self.element.clone().into())")], Q1)
T("attr-type", [(I, SET, "        input.set_attribute(\"type\", ty).unwrap();\n        input\n"), (I, "        let input = Self::new();\n", "        let input = Self::new();\n")], Q1)
T("element-set-type", [(I, SET, "        input.element.set_type(ty);\n        input\n")], Q1)
T("deref-input", [(I, SET, "        {\n            let el: &web_sys::HtmlInputElement = &input;\n            el.set_type(ty);\n        }\n        input\n")], Q1)
T("render-helper", [(C, CHILDED, "rendered(c, &self.element)"), (C, "macro_rules! component_impl {", "fn rendered<F: Future>(c: F, e: &web_sys::Node) -> ContainerNodeFuture<F> {\n    ContainerNodeFuture::new(c, e.clone())\n}\n\nmacro_rules! component_impl {")], Q1)
T("as-ref-through-field", [(C, "                self.element.as_ref()\n", "                let e: &$elem_ty = &self.element;\n                e.as_ref()\n")], Q1)
# E01, not
T("h6-is-h5", [(C, 'component_impl!(H6, "h6"', 'component_impl!(H6, "h5"')], F1)
T("col-is-colgroup", [(C, 'component_impl!(Col, "col"', 'component_impl!(Col, "colgroup"')], F1)
T("quote-blockquote", [(C, 'component_impl!(Quote, "q"', 'component_impl!(Quote, "blockquote"')], F1)
T("tfoot-tbody", [(C, 'component_impl!(TFoot, "tfoot"', 'component_impl!(TFoot, "tbody"')], F1)
T("th-as-element", [(C, 'component_impl!(Th, "th", web_sys::HtmlTableCellElement', 'component_impl!(Th, "th", web_sys::HtmlTableColElement')], F1)
T("clone-node", [(C, CHILDED, "ContainerNodeFuture::new(c, self.element.clone_node().unwrap())")], F1)
T("clone-node-childless", [(C, CHILDLESS, "                ContainerNodeFuture::new(\n                    pending(),\n                    AsRef::<web_sys::Node>::as_ref(&self.element).clone_node_with_deep(true).unwrap(),\n                )\n")], F1)
T("fresh-element", [(C, CHILDED, "ContainerNodeFuture::new(c, create_element::<web_sys::Element>(&AsRef::<web_sys::Element>::as_ref(&self.element).tag_name()).into())")], F1)
T("default-differs", [(C, "impl Default for $ty {\n            fn default() -> Self {\n                Self::new()", "impl Default for $ty {\n            fn default() -> Self {\n                Self { element: create_element(concat!(\"x-\", $tag_name)) }")], F1)
T("type-on-another", [(I, SET, "        Self::new().set_type(ty);\n        input\n")], F1)
T("type-not-set-for-text", [(I, "        input.set_type(ty);\n", "        if ty.len() > 4 {\n            input.set_type(ty);\n        }\n")], F1)
T("type-as-name", [(I, "input.set_type(ty)", "input.set_name(ty)")], F1)
T("type-then-default", [(I, SET, "        input.set_type(ty);\n        if ty == \"image\" {\n            input.set_type(\"submit\");\n        }\n        input\n")], F1)
T("tel-is-number", [(I, 'make_input_types!(new_tel, "tel")', 'make_input_types!(new_tel, "number")')], F1)
T("custom-lowercase", [(C, "create_element(&tag_name)", "create_element(&tag_name[1..])")], F1)
T("custom-div", [(C, "create_element(&tag_name)", "create_element(if tag_name.contains('-') { &tag_name } else { \"div\" })")], F1)
T("svg", [(C, ".create_element(", ".create_element_ns(None, ")], F1)
# E02
T("event-let", [(E, EV, "            let target: &_ = self.as_ref();\n            target.until_event($ev_name.into())\n")], Q2)
T("event-cow", [(E, EV, "            self.as_ref().until_event(std::borrow::Cow::Borrowed($ev_name))\n")], Q2)
T("event-stream-new", [(E, EV, "            let target: &web_sys::EventTarget = self.as_ref();\n            EventFutureStream::new(target.clone(), $ev_name.into())\n")], Q2)
T("mouseenter-over", [(E, '"mouseenter", until_mouseenter', '"mouseover", until_mouseenter')], F2)
T("focusin", [(E, '"focusin", until_focusin', '"focus", until_focusin')], F2)
T("dblclick-case", [(E, '"dblclick", until_dblclick', '"dblClick", until_dblclick')], F2)
T("keydown-type", [(E, '"keydown", until_keydown, web_sys::KeyboardEvent', '"keydown", until_keydown, web_sys::InputEvent')], F2)
T("touch-swap", [(E, '"touchend", until_touchend', '"touchcancel", until_touchend')], F2)
T("listens-on-parent", [(E, EV, "            let e = self.as_ref();\n            e.parent_element().map_or_else(|| e.until_event($ev_name.into()), |p| p.until_event($ev_name.into()))\n")], F2)
T("lowercased", [(H, "        EventFutureStream::new(", "        let name: Cow<'static, str> = name.trim_start_matches(\"on\").to_owned().into();\n        EventFutureStream::new(")], F2)
T("lowercased2", [(H, "        EventFutureStream::new(self.to_owned(), name)", "        let name: Cow<'static, str> = name.to_lowercase().into();\n        EventFutureStream::new(self.to_owned(), name)")], F2)
T("name-cloned", [(H, "        EventFutureStream::new(self.to_owned(), name)", "        let name = name.clone();\n        EventFutureStream::new(self.clone(), name)")], Q2)
T("name-owned", [(H, "        EventFutureStream::new(self.to_owned(), name)", "        EventFutureStream::new(self.clone(), Cow::Owned(name.into_owned()))")], Q2)
T("root-of-target", [(E, EV, "            let e = self.as_ref();\n            EventFutureStream::new(e.owner_document().map_or_else(|| e.clone().into(), Into::into), $ev_name.into())\n")], F2)
T("parent-of-target", [(E, EV, "            let e = self.as_ref();\n            EventFutureStream::new(e.parent_element().unwrap().into(), $ev_name.into())\n")], F2)
