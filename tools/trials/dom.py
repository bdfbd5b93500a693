C = "async_ui_web_core/src/"
X, N, S, D, PO, CD = C + "context.rs", C + "node_container.rs", C + "node_sibling.rs", C + "dropping.rs", C + "position.rs", C + "combinators/common/"
Q = {"C06": "quiet", "C07": "quiet"}
F6, F7 = {"C06": "fire"}, {"C07": "fire"}
CMP = """    for (e1, e2) in s1.iter().rev().zip(s2.iter().rev()) {
        match e1.cmp(e2) {
            Ordering::Equal => {}
            cmp_res => return cmp_res,
        }
    }
    let (l1, l2) = (s1.len(), s2.len());
    l1.cmp(&l2)
"""
T("cmp-iterator", [(PO, CMP, "    s1.iter().rev().cmp(s2.iter().rev())\n")], Q)
T("cmp-is-ne", [(PO, CMP, """    for (e1, e2) in s1.iter().rev().zip(s2.iter().rev()) {
        let res = e1.cmp(e2);
        if res.is_ne() {
            return res;
        }
    }
    s1.len().cmp(&s2.len())
""")], Q)
T("cmp-ne", [(PO, CMP, """    for (e1, e2) in s1.iter().rev().zip(s2.iter().rev()) {
        let res = e1.cmp(e2);
        if res != Ordering::Equal {
            return res;
        }
    }
    s1.len().cmp(&s2.len())
""")], Q)
T("cmp-if-ne", [(PO, CMP, """    for (e1, e2) in s1.iter().rev().zip(s2.iter().rev()) {
        if e1 != e2 {
            return e1.cmp(e2);
        }
    }
    s1.len().cmp(&s2.len())
""")], Q)
T("cmp-lt-gt", [(PO, CMP, """    for (e1, e2) in s1.iter().rev().zip(s2.iter().rev()) {
        if e1 < e2 {
            return Ordering::Less;
        } else if e1 > e2 {
            return Ordering::Greater;
        }
    }
    s1.len().cmp(&s2.len())
"""), (PO, "fn compare_slice_reversed<C: Ord>(s1: &[C], s2: &[C])", "fn compare_slice_reversed(s1: &[u32], s2: &[u32])")], Q)
T("cmp-while-index", [(PO, CMP, """    let (l1, l2) = (s1.len(), s2.len());
    let mut k = 1;
    while k <= l1 && k <= l2 {
        match s1[l1 - k].cmp(&s2[l2 - k]) {
            Ordering::Equal => k += 1,
            res => return res,
        }
    }
    l1.cmp(&l2)
""")], Q)
T("cmp-then-with", [(PO, CMP, """    let first_difference = s1.iter().rev().zip(s2.iter().rev()).map(|(a, b)| a.cmp(b)).find(|o| o.is_ne());
    first_difference.unwrap_or_else(|| s1.len().cmp(&s2.len()))
""")], Q)
T("cmp-length-first", [(PO, CMP, """    s1.len().cmp(&s2.len()).then_with(|| s1.iter().rev().cmp(s2.iter().rev()))
""")], F7)
T("cmp-no-rev", [(PO, CMP, "    s1.iter().cmp(s2.iter())\n")], F7)
T("cmp-rev-one", [(PO, "zip(s2.iter().rev())", "zip(s2.iter())")], F7)
T("cmp-prefix-greater", [(PO, "l1.cmp(&l2)", "l2.cmp(&l1)")], F7)
T("cmp-prefix-equal", [(PO, "l1.cmp(&l2)", "if l1 == 0 { l1.cmp(&l2) } else { Ordering::Equal }")], F7)
T("cmp-elem-swapped", [(PO, "match e1.cmp(e2) {", "match e2.cmp(e1) {")], F7)
T("wrap-insert0", [(PO, "self.0.push(index);", "self.0.insert(0, index);")], F7)
T("wrap-extend", [(PO, "self.0.push(index);", "self.0.extend([index]);")], Q)
T("wrap-insert-len", [(PO, "self.0.push(index);", "let len = self.0.len();\n        self.0.insert(len, index);")], Q)
NS = """        let mut content = self.0.clone();
        content[0] += 1;
        Self(content)
"""
T("next-self-clone", [(PO, NS, "        let mut next = self.clone();\n        next.0[0] += 1;\n        next\n")], Q)
T("next-first-mut", [(PO, NS, "        let mut next = self.clone();\n        *next.0.first_mut().unwrap() += 1;\n        next\n")], Q)
T("next-if-let", [(PO, NS, "        let mut next = self.clone();\n        if let Some(first) = next.0.first_mut() {\n            *first += 1;\n        }\n        next\n")], Q)
T("next-plus-2", [(PO, "content[0] += 1;", "content[0] += 2;")], F7)
T("next-wrapping", [(PO, "content[0] += 1;", "content[0] = content[0] + 1;")], Q)
# context
T("add-if-let", [(X, "let reference_sibling = group.range((&position)..).next().map(|(_k, v)| v);", """let mut reference_sibling = None;
                if let Some((_, node)) = group.range((&position)..).next() {
                    reference_sibling = Some(node);
                }""")], Q)
T("add-match-sibling", [(X, """                let reference_sibling = group
                    .range((&position)..)
                    .next()
                    .map(|(_k, v)| v)
                    .unwrap_or(*reference);""", """                let reference_sibling = match group.range((&position)..).next() {
                    Some((_, node)) => node,
                    None => *reference,
                };""")], Q)
T("add-insert-then-place", [(X, """                let reference_sibling = group.range((&position)..).next().map(|(_k, v)| v);
                container
                    .insert_before(&new_child, reference_sibling)
                    .unwrap_throw();
                panic_if_duplicate_node(group.insert(position, new_child));""", """                let reference_sibling = group.range((&position)..).next().map(|(_k, v)| v.clone());
                panic_if_duplicate_node(group.insert(position, new_child.clone()));
                container
                    .insert_before(&new_child, reference_sibling.as_ref())
                    .unwrap_throw();""")], Q)
T("add-helper", [(X, "let reference_sibling = group.range((&position)..).next().map(|(_k, v)| v);", "let reference_sibling = node_after(&group, &position);"),
   (X, "fn remove_children_here(", "fn node_after<'a>(group: &'a BTreeMap<ChildPosition, web_sys::Node>, position: &ChildPosition) -> Option<&'a web_sys::Node> {\n    group.range(position..).next().map(|(_, node)| node)\n}\n\nfn remove_children_here(")], Q)
T("add-values-excl", [(X, "group.range((&position)..).next().map(|(_k, v)| v);", "group.range::<ChildPosition, _>((std::ops::Bound::Excluded(&position), std::ops::Bound::Unbounded)).next().map(|(_k, v)| v);")], Q)
T("add-before-first", [(X, "group.range((&position)..).next().map(|(_k, v)| v);", "group.values().next();")], F6)
T("add-next-back", [(X, "let reference_sibling = group.range((&position)..).next().map(|(_k, v)| v);", "let reference_sibling = group.range((&position)..).next_back().map(|(_k, v)| v);")], F6)
T("add-range-to", [(X, "let reference_sibling = group.range((&position)..).next().map(|(_k, v)| v);", "let reference_sibling = group.range(..(&position)).next_back().map(|(_k, v)| v);")], F6)
T("add-sibling-into-parent-end", [(X, "Some(reference_sibling))\n                    .unwrap_throw();", "if group.is_empty() { None } else { Some(reference_sibling) })\n                    .unwrap_throw();")], F6)
T("add-not-recorded", [(X, """                parent
                    .get_containing_node()
                    .insert_before(&new_child, Some(reference_sibling))
                    .unwrap_throw();
                panic_if_duplicate_node(group.insert(position, new_child));""", """                parent
                    .get_containing_node()
                    .insert_before(&new_child, Some(reference_sibling))
                    .unwrap_throw();
                if !position.is_root() {
                    panic_if_duplicate_node(group.insert(position, new_child));
                }""")], F6)
T("child-loses-index", [(X, "position.wrap(*index);\n                parent.add_child(position, new_child);", "if !position.is_root() || *index > 0 {\n                    position.wrap(*index);\n                }\n                parent.add_child(position, new_child);")], F6)
RM = """        let next = position.next_sibling();
        let range = (&position)..(&next);
        while let Some((key, child)) = tree.range(range.clone()).next_back() {
            container.remove_child(child).unwrap_throw();
            tree.remove(&key.clone());
        }
"""
T("rm-collect-keys", [(X, RM, """        let next = position.next_sibling();
        let keys: Vec<ChildPosition> = tree.range((&position)..(&next)).map(|(key, _)| key.clone()).collect();
        for key in keys {
            if let Some(child) = tree.remove(&key) {
                container.remove_child(&child).unwrap_throw();
            }
        }
""")], Q)
T("rm-loop-match", [(X, RM, """        let next = position.next_sibling();
        loop {
            match tree.range((&position)..(&next)).next() {
                Some((key, child)) => {
                    container.remove_child(child).unwrap_throw();
                    let key = key.clone();
                    tree.remove(&key);
                }
                None => break,
            }
        }
""")], Q)
T("rm-clone-first", [(X, RM, """        let next = position.next_sibling();
        while let Some(key) = tree.range(&position..&next).next_back().map(|(key, _)| key.clone()) {
            let child = tree.remove(&key).unwrap();
            container.remove_child(&child).unwrap_throw();
        }
""")], Q)
T("rm-retain", [(X, RM, """        let next = position.next_sibling();
        tree.retain(|key, child| {
            let inside = *key >= position && *key < next;
            if inside {
                container.remove_child(child).unwrap_throw();
            }
            !inside
        });
""")], Q)
T("rm-root-for", [(X, """        tree.values().for_each(|child| {
            container.remove_child(child).unwrap_throw();
        });
        tree.clear();
""", """        for child in tree.values() {
            container.remove_child(child).unwrap_throw();
        }
        tree.clear();
""")], Q)
T("rm-root-take", [(X, """        tree.values().for_each(|child| {
            container.remove_child(child).unwrap_throw();
        });
        tree.clear();
""", """        for (_, child) in std::mem::take(tree) {
            container.remove_child(&child).unwrap_throw();
        }
""")], Q)
T("rm-root-pop", [(X, """        tree.values().for_each(|child| {
            container.remove_child(child).unwrap_throw();
        });
        tree.clear();
""", """        while let Some((_, child)) = tree.pop_last() {
            container.remove_child(&child).unwrap_throw();
        }
""")], Q)
T("rm-early-return", [(X, """        tree.clear();
    } else {
""", """        tree.clear();
        return;
    }
    {
""")], Q)
T("rm-root-no-clear", [(X, "        tree.clear();\n", "")], F6)
T("rm-inclusive", [(X, """        let range = (&position)..(&next);
        while let Some((key, child)) = tree.range(range.clone()).next_back() {""", """        let range = (&position)..=(&next);
        while let Some((key, child)) = tree.range(range.clone()).next_back() {""")], F6)
T("rm-open-end", [(X, "while let Some((key, child)) = tree.range(range.clone()).next_back() {", "let _ = &range;\n        while let Some((key, child)) = tree.range((&position)..).next_back() {"), ], F6)
T("rm-not-forgotten", [(X, "            tree.remove(&key.clone());\n", "            let key = key.clone();\n            if key != position {\n                tree.remove(&key);\n            } else {\n                break;\n            }\n")], F6)
T("rm-sibling-own-ref", [(X, "remove_children_here(&mut group, position, parent.get_containing_node());", "if !group.is_empty() && !position.is_root() {\n                    remove_children_here(&mut group, position, parent.get_containing_node());\n                }")], F6)
# container
T("add-self-bool", [(N, "    add_self: AddSelfMode,\n", "    should_add: bool,\n    added: bool,\n"),
  (N, "            add_self: AddSelfMode::ShouldAdd,\n", "            should_add: true,\n            added: false,\n"),
  (N, "            add_self: AddSelfMode::ShouldNotAdd,\n", "            should_add: false,\n            added: false,\n"),
  (N, """        if matches!(this.add_self, AddSelfMode::ShouldAdd) {
            *this.add_self = AddSelfMode::Added;
""", """        if *this.should_add && !*this.added {
            *this.added = true;
"""), (N, "matches!(self.add_self, AddSelfMode::Added)", "self.added"),
  (N, """/// Should the node be added to the parent?
enum AddSelfMode {
    ShouldNotAdd,
    ShouldAdd,
    Added,
}
""", "")], Q)
T("container-match", [(N, """        if matches!(this.add_self, AddSelfMode::ShouldAdd) {
            *this.add_self = AddSelfMode::Added;
            DOM_CONTEXT.with(|ctx| {
                ctx.add_child(ChildPosition::default(), this.container.clone());
            })
        }
""", """        match this.add_self {
            AddSelfMode::ShouldAdd => {
                DOM_CONTEXT.with(|ctx| ctx.add_child(ChildPosition::default(), this.container.clone()));
                *this.add_self = AddSelfMode::Added;
            }
            AddSelfMode::ShouldNotAdd | AddSelfMode::Added => {}
        }
""")], Q)
T("container-replace", [(N, """        if matches!(this.add_self, AddSelfMode::ShouldAdd) {
            *this.add_self = AddSelfMode::Added;
""", """        let was_added = matches!(this.add_self, AddSelfMode::Added | AddSelfMode::ShouldNotAdd);
        if !was_added {
            let _ = std::mem::replace(this.add_self, AddSelfMode::Added);
""")], Q)
T("container-drop-helper", [(N, """            if !self.drop.block_until_drop() {
                DOM_CONTEXT.with(|ctx| {
                    ctx.remove_child(ChildPosition::default());
                })
            }
""", """            let already_gone = self.drop.block_until_drop();
            if already_gone {
                return;
            }
            detach_own_position();
"""), (N, "#[pinned_drop]\nimpl<C> PinnedDrop for ContainerNodeFuture<C>", "fn detach_own_position() {\n    DOM_CONTEXT.with(|ctx| ctx.remove_child(ChildPosition::default()));\n}\n\n#[pinned_drop]\nimpl<C> PinnedDrop for ContainerNodeFuture<C>")], Q)
T("container-skip-set", [(N, "DOM_CONTEXT.set(&ctx, || this.child_future.poll(cx))", "let child = this.child_future;\n        let result = DOM_CONTEXT.set(&ctx, move || child.poll(cx));\n        result")], Q)
T("container-drop-match", [(N, """        if matches!(self.add_self, AddSelfMode::Added) {
            // we added our node, we should remove it
            if !self.drop.block_until_drop() {""", """        let added = match self.add_self {
            AddSelfMode::Added => true,
            _ => false,
        };
        if added {
            // we added our node, we should remove it
            let blocked = self.drop.block_until_drop();
            if !blocked {""")], Q)
T("container-no-context", [(N, "DOM_CONTEXT.set(&ctx, || this.child_future.poll(cx))", "let first = this.group.borrow().is_empty();\n        if first { DOM_CONTEXT.set(&ctx, || this.child_future.poll(cx)) } else { this.child_future.poll(cx) }")], F6)
T("container-add-each-poll", [(N, "            *this.add_self = AddSelfMode::Added;\n", "            if this.group.borrow().len() > 0 { *this.add_self = AddSelfMode::Added; }\n")], F6)
T("container-remove-on-ready", [(N, "DOM_CONTEXT.set(&ctx, || this.child_future.poll(cx))", "let result = DOM_CONTEXT.set(&ctx, || this.child_future.poll(cx));\n        if result.is_ready() {\n            *this.add_self = AddSelfMode::ShouldNotAdd;\n        }\n        result")], F6)
T("container-no-block", [(N, "if !self.drop.block_until_drop() {", "if self.group.borrow().is_empty() || !self.drop.block_until_drop() {")], F6)
T("root-no-block", [(N, "            self.drop.block_until_drop();\n            let this", "            let this")], F6)
T("field-order", [(N, "    #[pin]\n    child_future: C,\n    group: NodeGroup,\n    container: web_sys::Node,\n    add_self: AddSelfMode,\n    drop: DetachmentBlocker,\n", "    drop: DetachmentBlocker,\n    #[pin]\n    child_future: C,\n    group: NodeGroup,\n    container: web_sys::Node,\n    add_self: AddSelfMode,\n")], F6)
T("field-order-ok", [(N, "    group: NodeGroup,\n    container: web_sys::Node,\n    add_self: AddSelfMode,\n    drop: DetachmentBlocker,\n", "    add_self: AddSelfMode,\n    container: web_sys::Node,\n    group: NodeGroup,\n    drop: DetachmentBlocker,\n")], Q)
# sibling
T("sibling-early-return", [(S, """        if !this.drop.block_until_drop() {
            DOM_CONTEXT.with(|parent: &DomContext| {
                (DomContext::Sibling {
                    group: this.group,
                    reference: this.reference,
                    parent,
                })
                .remove_child(ChildPosition::default());
            })
        }
""", """        if this.drop.block_until_drop() {
            return;
        }
        DOM_CONTEXT.with(|parent| {
            let here = DomContext::Sibling {
                group: this.group,
                reference: this.reference,
                parent,
            };
            here.remove_child(ChildPosition::default());
        })
""")], Q)
T("sibling-no-block", [(S, "if !this.drop.block_until_drop() {", "if true {")], F6)
T("sibling-wrong-remove", [(S, """                (DomContext::Sibling {
                    group: this.group,
                    reference: this.reference,
                    parent,
                })
                .remove_child(ChildPosition::default());""", "                let _ = (this.group, this.reference);\n                parent.remove_child(ChildPosition::default());")], F6)
# blocker
T("blocker-match", [(D, """            if cell.get().is_null() {
                cell.set(self as *const DetachmentBlocker);
                false
            } else {
                true
            }
""", """            let blocked = !cell.get().is_null();
            if !blocked {
                cell.set(self);
            }
            blocked
""")], Q)
T("blocker-replace", [(D, """            if std::ptr::eq(cell.get(), addr) {
                cell.set(std::ptr::null());
            }
""", """            if cell.get() == addr {
                cell.replace(std::ptr::null());
            }
""")], Q)
T("blocker-take-null", [(D, """        IS_DROPPING.with(|cell| {
            // Make sure we're the one meant to unset this thread local.
            if std::ptr::eq(cell.get(), addr) {
                cell.set(std::ptr::null());
            }
        });
""", """        let owner = IS_DROPPING.with(|cell| cell.get());
        if owner != addr {
            return;
        }
        IS_DROPPING.with(|cell| cell.set(std::ptr::null()));
""")], Q)
T("blocker-unblocks-any", [(D, "if std::ptr::eq(cell.get(), addr) {", "if !cell.get().is_null() || std::ptr::eq(cell.get(), addr) {")], F6)
T("blocker-inverted", [(D, "                false\n            } else {\n                true\n", "                true\n            } else {\n                false\n")], F6)
T("vec-drop-no-check", [(CD + "vec.rs", "if !this.detachment_blocker.block_until_drop() {", "this.detachment_blocker.block_until_drop();\n        {")] , F6)
