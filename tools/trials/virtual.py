V = "async_ui_web/src/lists/virtualized_list.rs"
Q, F = {"L06": "quiet"}, {"L06": "fire"}
REM = """        for to_remove in (state.range.start..state.range.end.min(new_start))
            .chain(state.range.start.max(new_end)..state.range.end)
        {
            self.list.remove(&to_remove);
        }
"""
REMAIN = """        let remaining = (state.range.start >= new_start && state.range.start < new_end)
            .then_some(state.range.start);
"""
FRONT = """        for to_add in new_start..new_end.min(state.range.start) {
            self.list
                .insert(to_add, (state.renderer)(to_add), remaining.as_ref());
        }
"""
BACK = """        for to_add in new_start.max(state.range.end)..new_end {
            self.list.insert(to_add, (state.renderer)(to_add), None);
        }
"""
RANGE = "        state.range = new_start..new_end;\n"
# the same behaviour
T("filter-removal", [(V, REM, """        for i in state.range.clone() {
            if i < new_start || i >= new_end {
                self.list.remove(&i);
            }
        }
""")], Q)
T("contains-removal", [(V, REM, """        let shown = new_start..new_end;
        state.range.clone().filter(|i| !shown.contains(i)).for_each(|i| {
            self.list.remove(&i);
        });
""")], Q)
T("two-removal-loops", [(V, REM, """        for i in state.range.start..state.range.end.min(new_start) {
            self.list.remove(&i);
        }
        for i in state.range.start.max(new_end)..state.range.end {
            self.list.remove(&i);
        }
""")], Q)
T("remaining-if", [(V, REMAIN, """        let remaining = if (new_start..new_end).contains(&state.range.start) {
            Some(state.range.start)
        } else {
            None
        };
""")], Q)
T("old-range-taken", [(V, REM, """        let old = std::mem::replace(&mut state.range, new_start..new_end);
        for to_remove in (old.start..old.end.min(new_start)).chain(old.start.max(new_end)..old.end) {
            self.list.remove(&to_remove);
        }
"""), (V, REMAIN, """        let remaining = (old.start >= new_start && old.start < new_end).then_some(old.start);
"""), (V, FRONT, FRONT.replace("state.range", "old")), (V, BACK, BACK.replace("state.range", "old")), (V, RANGE, "")], Q)
T("one-add-loop", [(V, FRONT, ""), (V, BACK, """        for to_add in new_start..new_end {
            if !state.range.contains(&to_add) {
                let before = remaining.filter(|r| to_add < *r);
                self.list.insert(to_add, (state.renderer)(to_add), before.as_ref());
            }
        }
""")], Q)
T("while-loop", [(V, BACK, """        let mut to_add = new_start.max(state.range.end);
        while to_add < new_end {
            let fut = (state.renderer)(to_add);
            self.list.insert(to_add, fut, None);
            to_add += 1;
        }
""")], Q)
T("helper", [(V, BACK, """        let from = new_start.max(state.range.end);
        Self::append(&self.list, &mut state.renderer, from..new_end);
"""), (V, "    fn update_visible(&self) {\n", """    fn append(list: &DynamicList<'c, usize, Fut>, renderer: &mut Renderer, indices: Range<usize>) {
        for i in indices {
            list.insert(i, renderer(i), None);
        }
    }
    fn update_visible(&self) {
""")], Q)
T("rev-front", [(V, FRONT, """        let mut before = remaining;
        let mut to_add = new_end.min(state.range.start);
        let appended = before.is_none();
        if appended {
            for i in new_start..to_add {
                self.list.insert(i, (state.renderer)(i), None);
            }
        } else {
            while to_add > new_start {
                to_add -= 1;
                self.list.insert(to_add, (state.renderer)(to_add), before.as_ref());
                before = Some(to_add);
            }
        }
""")], Q)
T("never-early", [(V, "            return;\n", "            let _ = 1;\n")], Q)
T("clear-when-disjoint", [(V, REM, """        if state.range.end <= new_start || new_end <= state.range.start {
            state.range.clone().for_each(|i| {
                self.list.remove(&i);
            });
        }
""" + REM)], Q)
# not the same behaviour
T("no-removal-front", [(V, "            .chain(state.range.start.max(new_end)..state.range.end)\n", "")], F)
T("no-removal-back", [(V, REM, """        for i in state.range.start.max(new_end)..state.range.end {
            self.list.remove(&i);
        }
""")], F)
T("front-appended", [(V, "remaining.as_ref());", "None);")], F)
T("range-not-kept", [(V, RANGE, "")], F)
T("range-start-only", [(V, RANGE, "        state.range.start = new_start;\n")], F)
T("one-too-many", [(V, "for to_add in new_start.max(state.range.end)..new_end {", "for to_add in new_start.max(state.range.end)..new_end + 1 {")], F)
T("one-too-few", [(V, "for to_add in new_start.max(state.range.end)..new_end {", "for to_add in new_start.max(state.range.end) + 1..new_end {")], F)
T("min-dropped", [(V, ".min(state.num_items);\n        // when", ";\n        // when")], F)
T("rerender-first", [(V, "new_end.min(state.range.start) {", "new_end.min(state.range.start + 1) {")], F)
T("rendered-index-shifted", [(V, "            self.list.insert(to_add, (state.renderer)(to_add), None);", "            self.list.insert(to_add, (state.renderer)(to_add - new_start), None);")], F)
T("early-return-on-growth", [(V, "|| state.range.end == state.num_items)", "|| state.range.end > 0)")], Q)
T("no-shrink-guard", [(V, "        if state.range.end <= state.num_items\n            && (", "        if (")], F)
T("no-inverted-guard", [(V, "        let new_start = new_start.min(new_end);\n", "")], F)
T("shrink-cuts-range", [(V, "        self.state.borrow_mut().num_items = num;\n", "        self.state.borrow_mut().num_items = num;\n        let mut s = self.state.borrow_mut();\n        s.range.end = s.range.end.min(num);\n        drop(s);\n")], F)
