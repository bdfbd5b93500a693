D = "async_ui_web/src/lists/diffed_list.rs"
M = "async_ui_web/src/lists/modeled_list.rs"
B = "async_ui_web/src/components/dropdown.rs"
Q2, F2 = {"L02": "quiet"}, {"L02": "fire"}
Q3, F3 = {"L03": "quiet"}, {"L03": "fire"}
Q4, F4 = {"L04": "quiet"}, {"L04": "fire"}
SKIP = """            while prev_keys_iter
                .next_if(|prev_key| !prev_keys_set.contains(*prev_key))
                .is_some()
            {}
"""
REM = """        for key in prev_keys_set.drain() {
            self.dl.remove(key);
        }
"""
BODY = """            if prev_keys_set.remove(key) {
                if prev_keys_iter.next_if_eq(&key).is_some() {
                    continue;
                } else {
                    self.dl.move_before(key, prev_keys_iter.peek().cloned());
                }
            } else {
                let fut = renderer(key);
                self.dl
                    .insert(key.clone(), fut, prev_keys_iter.peek().cloned());
            }
"""
# ---- L02 quiet
T("d-skip-by-loop", [(D, SKIP, """            loop {
                match prev_keys_iter.peek() {
                    Some(k) if !prev_keys_set.contains(*k) => {
                        prev_keys_iter.next();
                    }
                    _ => break,
                }
            }
""")], Q2)
T("d-match", [(D, BODY, """            let was_there = prev_keys_set.remove(key);
            if was_there && prev_keys_iter.peek() == Some(&key) {
                prev_keys_iter.next();
                continue;
            }
            let before = prev_keys_iter.peek().copied();
            match was_there {
                true => self.dl.move_before(key, before),
                false => {
                    self.dl.insert(key.clone(), renderer(key), before);
                }
            }
""")], Q2)
T("d-remove-by-retain", [(D, REM, """        if !prev_keys_set.is_empty() {
            self.dl.retain(|k| !prev_keys_set.contains(k));
        }
""")], Q2)
T("d-remove-first", [(D, SKIP, SKIP), (D, REM, ""), (D, """        let mut prev_keys_iter = prev_keys_list.iter().peekable();
        for key""", """        {
            let wanted = new_keys.iter().collect::<HashSet<_>>();
            prev_keys_set.retain(|k| {
                let keep = wanted.contains(*k);
                if !keep {
                    self.dl.remove(*k);
                }
                keep
            });
        }
        let mut prev_keys_iter = prev_keys_list.iter().peekable();
        for key""")], Q2)
T("d-backwards", [(D, "        let mut prev_keys_iter = prev_keys_list.iter().peekable();\n", ""), (D, "        for key in new_keys.iter() {\n" + """            // keys that were moved are not at their previous place anymore
""" + SKIP + BODY + "        }\n", """        let mut before: Option<&K> = None;
        for key in new_keys.iter().rev() {
            if prev_keys_set.remove(key) {
                self.dl.move_before(key, before);
            } else {
                self.dl.insert(key.clone(), renderer(key), before);
            }
            before = Some(key);
        }
""")], Q2)
T("d-for-each", [(D, REM, "        prev_keys_set.into_iter().for_each(|key| {\n            self.dl.remove(key);\n        });\n")], Q2)
T("d-index", [(D, "        for key in new_keys.iter() {", "        for i in 0..new_keys.len() {\n            let key = &new_keys[i];")], Q2)
# ---- L02 fire
T("d-no-skip", [(D, SKIP, "")], F2)
T("d-next-always", [(D, "prev_keys_iter.next_if_eq(&key).is_some()", "prev_keys_iter.next() == Some(key)")], F2)
T("d-keep-removed", [(D, REM, "        if new_keys.len() < prev_keys_list.len() {\n            for key in prev_keys_set.drain() {\n                self.dl.remove(key);\n            }\n        }\n")], F2)
T("d-prev-kept", [(D, "        inner.prev_keys_list = new_keys;", "        if !new_keys.is_empty() {\n            inner.prev_keys_list = new_keys;\n        }")], F2)
T("d-skip-once", [(D, SKIP, SKIP.replace("while", "if").replace("            {}\n", "            {\n            }\n"))], F2)
T("d-insert-end", [(D, """                    .insert(key.clone(), fut, prev_keys_iter.peek().cloned());""", """                    .insert(key.clone(), fut, prev_keys_iter.next());""")], Q2)
T("d-remake", [(D, "                    self.dl.move_before(key, prev_keys_iter.peek().cloned());", "                    self.dl.remove(key);\n                    self.dl.insert(key.clone(), renderer(key), prev_keys_iter.peek().cloned());")], F2)
# ---- L03 quiet
T("m-log-len", [(M, "        let max_log_len = self.vec.len() / 2;\n        let log_len = self.log.changes.len();\n        if log_len > max_log_len {", "        while self.log.changes.len() > self.vec.len() / 2 {")], Q3)
T("m-log-longer", [(M, "self.vec.len() / 2;", "self.vec.len() + 1;")], Q3)
T("m-no-log", [(M, "self.vec.len() / 2;", "0;")], Q3)
T("m-move-by-remove", [(M, """        let low = from.min(to);
        let high = from.max(to);
        let slice = &mut self.vec[low..=high];
        match from.cmp(&to) {
            std::cmp::Ordering::Less => slice.rotate_left(1),
            std::cmp::Ordering::Greater => slice.rotate_right(1),
            _ => {}
        }
""", """        let item = self.vec.remove(from);
        self.vec.insert(to, item);
""")], Q3)
T("m-pop-match", [(M, """        let res = self.vec.pop();
        if let Some(key) = res.clone() {
            self.add_change(Change::Remove { key });
        }
        res
""", """        match self.vec.pop() {
            Some(key) => {
                self.add_change(Change::Remove { key: key.clone() });
                Some(key)
            }
            None => None,
        }
""")], Q3)
T("m-push-by-insert", [(M, """        self.add_change(Change::Insert {
            key: key.clone(),
            before: None,
        });
        self.vec.push(key);
""", """        self.insert(self.vec.len(), key);
""")], Q3)
T("m-for-loop", [(M, """                model.vec.iter().for_each(|key| {
                    if !retained_keys.contains(key) {
                        self.list.insert(key.clone(), (self.renderer)(key), None);
                    }
                });
                // move every retained key to the right location
                model.vec.iter().rev().fold(None, |last, key| {
                    if retained_keys.contains(key) {
                        self.list.move_before(key, last);
                    }
                    Some(key)
                });
""", """                let mut last = None;
                for key in model.vec.iter().rev() {
                    if retained_keys.contains(key) {
                        self.list.move_before(key, last);
                    } else {
                        self.list.insert(key.clone(), (self.renderer)(key), last);
                    }
                    last = Some(key);
                }
""")], Q3)
T("m-clone-derived", [(M, """        Self::default()
    }
}

impl<K> Default for ListModelLog<K> {""", """        Self { changes: VecDeque::new(), version: self.version, unique: Rc::new(()) }
    }
}

impl<K> Default for ListModelLog<K> {""")], Q3)
T("m-change-after", [(M, """        self.add_change(Change::Swap {
            a: self.vec[a].clone(),
            b: self.vec[b].clone(),
        });
        self.vec.swap(a, b);
""", """        self.vec.swap(a, b);
        let (x, y) = (self.vec[b].clone(), self.vec[a].clone());
        self.add_change(Change::Swap { a: x, b: y });
""")], Q3)
T("m-skip-by-rev-take", [(M, "                    .skip((old_ver - log_start_ver) as usize)\n", "                    .rev()\n                    .take((new_ver - old_ver) as usize)\n                    .collect::<Vec<_>>()\n                    .into_iter()\n                    .rev()\n")], Q3)
# ---- L03 fire
T("m-skip-more", [(M, "if old_ver >= log_start_ver =>", "if old_ver + 1 >= log_start_ver =>"), (M, ".skip((old_ver - log_start_ver) as usize)", ".skip(old_ver.saturating_sub(log_start_ver) as usize)")], F3)
T("m-no-version-in-modify", [(M, "        self.log.version += 1;\n        self.log.changes.clear();", "        self.log.changes.clear();")], F3)
T("m-no-clear-in-modify", [(M, "        self.log.version += 1;\n        self.log.changes.clear();", "        self.log.version += 1;")], F3)
T("m-clone-same", [(M, """        Self::default()
    }
}

impl<K> Default for ListModelLog<K> {""", """        Self { changes: VecDeque::new(), version: self.version, unique: self.unique.clone() }
    }
}

impl<K> Default for ListModelLog<K> {""")], F3)
T("m-pop-back", [(M, "self.log.changes.pop_front();", "self.log.changes.pop_back();")], F3)
T("m-unique-kept", [(M, "            self.unique.set(Some(model.log.unique.clone()));\n", "            self.unique.set(unique.or_else(|| Some(model.log.unique.clone())));\n")], F3)
T("m-unique-lost", [(M, "            self.unique.set(unique);\n            // same", "            // same")], Q3)
T("m-version-not-set", [(M, "            self.version.set(new_ver);\n            None", "            None")], F3)
T("m-move-before-to", [(M, "before: self.vec.get(to + 1).cloned(),", "before: if from < to { self.vec.get(to + 1).cloned() } else { self.vec.get(to + 1).filter(|_| to > 0).cloned() },")], F3)
T("m-insert-after", [(M, "before: self.vec.get(index).cloned(),\n        });\n        self.vec.insert(index, key);", "before: self.vec.get(index.max(1)).cloned(),\n        });\n        self.vec.insert(index, key);")], F3)
T("m-rebuild-moves-first", [(M, "model.vec.iter().rev().fold(", "model.vec.iter().fold(")], F3)
T("m-rotate", [(M, "std::cmp::Ordering::Greater => slice.rotate_right(1),", "std::cmp::Ordering::Greater => slice.swap(0, high - low),")], F3)
T("m-remove-log-before", [(M, """        let removed = self.vec.remove(index);
        self.add_change(Change::Remove {
            key: removed.clone(),
        });
        removed
""", """        let removed = self.vec.swap_remove(index);
        self.add_change(Change::Remove {
            key: removed.clone(),
        });
        removed
""")], F3)
T("m-pop-no-log", [(M, "        if let Some(key) = res.clone() {", "        if let Some(key) = res.clone().filter(|_| !self.vec.is_empty()) {")], F3)
# ---- L04 quiet
T("o-single-borrow", [(B, """        if let Some(opt_ref) = opt.as_ref() {
            let inner = self.inner.borrow();
            if let Some(elem) = inner.map.get(opt_ref) {
                elem.set_selected(true);
                drop(inner);
                self.inner.borrow_mut().selected = opt;
                return;
            }
        }
        self.inner.borrow_mut().selected = None;
        self.select.set_value("");
""", """        let mut inner = self.inner.borrow_mut();
        match opt.as_ref().and_then(|o| inner.map.get(o)) {
            Some(elem) => {
                elem.set_selected(true);
                inner.selected = opt;
            }
            None => {
                self.select.set_selected_index(-1);
                inner.selected = None;
            }
        }
""")], Q4)
T("o-clear-first", [(B, """        if let Some(sel) = selected.as_ref().and_then(|k| map.get(k)) {
            sel.set_selected(true);
        } else {
            self.select.set_value("");
        }
""", """        self.select.set_value("");
        if let Some(k) = selected.as_ref() {
            if let Some(sel) = map.get(k) {
                sel.set_selected(true);
            }
        }
""")], Q4)
T("o-text-when-new", [(B, "            map.get(&opt).unwrap().set_text_content(Some(text));\n", "            if let Some(elem) = map.get(&opt) {\n                elem.set_text_content(Some(text));\n            }\n")], Q4)
T("o-value-match", [(B, """        (si >= 0)
            .then(|| inner.prev_opts_list.get(si as usize).cloned())
            .flatten()
            .or_else(|| inner.selected.clone())
""", """        if si >= 0 {
            if let Some(o) = inner.prev_opts_list.get(si as usize) {
                return Some(o.clone());
            }
        }
        inner.selected.clone()
""")], Q4)
T("o-entry", [(B, """                let elem = OptElem::new();
                map.insert(opt.clone(), elem);
                true
""", """                map.entry(opt.clone()).or_insert_with(OptElem::new);
                true
""")], Q4)
# ---- L04 fire
T("o-text-only-new", [(B, "                map.insert(opt.clone(), elem);\n", "                elem.set_text_content(Some(text));\n                map.insert(opt.clone(), elem);\n"), (B, "            map.get(&opt).unwrap().set_text_content(Some(text));\n", "")], F4)
T("o-current-late", [(B, "        let current_value = self.value();\n", "        let current_value = self.inner.borrow().selected.clone();\n")], F4)
T("o-no-deselect", [(B, """            sel.set_selected(true);
        } else {
            self.select.set_value("");
        }
    }
    pub async""", """            sel.set_selected(true);
        }
    }
    pub async""")], F4)
T("o-element-left", [(B, "                .remove_child(map.remove(opt).unwrap().as_ref())", "                .remove_child(map.get(opt).unwrap().as_ref())")], F4)
T("o-selected-first", [(B, """            .then(|| inner.prev_opts_list.get(si as usize).cloned())
            .flatten()
            .or_else(|| inner.selected.clone())""", """            .then(|| inner.selected.clone().or_else(|| inner.prev_opts_list.get(si as usize).cloned()))
            .flatten()""")], F4)
T("o-index-one", [(B, "(si >= 0)", "(si > 0)")], F4)
T("o-list-kept", [(B, "        *prev_opts_list = new_opts_list;\n", "        if !new_opts_list.is_empty() {\n            *prev_opts_list = new_opts_list;\n        }\n")], F4)
