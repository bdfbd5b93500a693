A = "async_ui_internal_utils/src/wakers_arena.rs"
RC = "async_ui_internal_utils/src/reactive_cell/"
B, U, FE, M = RC + "borrow_mut.rs", RC + "until_change.rs", RC + "for_each.rs", RC + "mod.rs"
Q2, F2, Q1, F1 = {"R02": "quiet"}, {"R02": "fire"}, {"R01": "quiet"}, {"R01": "fire"}
REM = """        // add to free list
        let free_head = &mut self.items[0];
        let old_free_next = replace(&mut free_head.next, index);
        self.items[old_free_next].prev = index;
        let node = &mut self.items[index];
        let (old_used_prev, old_used_next) = (
            replace(&mut node.prev, 0),
            replace(&mut node.next, old_free_next),
        );
        node.waker = dummy_waker();
        // fix the used list
        self.items[old_used_prev].next = old_used_next;
        self.items[old_used_next].prev = old_used_prev;
"""
ADD = """        let used_head = &mut self.items[sublist_head_index];
        let old_used_prev = replace(&mut used_head.prev, index);
        self.items[old_used_prev].next = index;
        let node = &mut self.items[index];
        let (old_free_prev, old_free_next) = (
            replace(&mut node.prev, old_used_prev),
            replace(&mut node.next, sublist_head_index),
        );
        // fix the free list
        if must_fix_free_list {
            self.items[old_free_prev].next = old_free_next;
            self.items[old_free_next].prev = old_free_prev;
        }
        WakerSlot(index)
"""
GROW = """        let old_len = self.items.len();
        self.items.extend((old_len..(old_len * 2)).map(|idx| Item {
            waker: dummy_waker(),
            prev: idx - 1,
            next: idx + 1,
        }));
        self.items[old_len + 1].prev = 0;
        self.items[old_len * 2 - 1].next = 0;
        let free_head = &mut self.items[0];
        free_head.prev = old_len * 2 - 1;
        free_head.next = old_len + 1;
        old_len
"""
HELP = """    fn unlink(&mut self, index: usize) {
        let (prev, next) = (self.items[index].prev, self.items[index].next);
        self.items[prev].next = next;
        self.items[next].prev = prev;
    }
    fn link_between(&mut self, index: usize, prev: usize, next: usize) {
        self.items[index].prev = prev;
        self.items[index].next = next;
        self.items[prev].next = index;
        self.items[next].prev = index;
    }
    /// Remove a previously added waker.
"""
T("remove-helpers", [(A, REM, """        self.unlink(index);
        self.items[index].waker = dummy_waker();
        let first_free = self.items[0].next;
        self.link_between(index, 0, first_free);
"""), (A, "    /// Remove a previously added waker.\n", HELP)], Q2)
T("remove-to-free-tail", [(A, REM, """        self.unlink(index);
        self.items[index].waker = dummy_waker();
        let last_free = self.items[0].prev;
        self.link_between(index, last_free, 0);
"""), (A, "    /// Remove a previously added waker.\n", HELP)], Q2)
T("add-at-front", [(A, ADD, """        let old_used_next = replace(&mut self.items[sublist_head_index].next, index);
        self.items[old_used_next].prev = index;
        let node = &mut self.items[index];
        let (old_free_prev, old_free_next) = (
            replace(&mut node.prev, sublist_head_index),
            replace(&mut node.next, old_used_next),
        );
        if must_fix_free_list {
            self.items[old_free_prev].next = old_free_next;
            self.items[old_free_next].prev = old_free_prev;
        }
        WakerSlot(index)
""")], Q2)
T("grow-reordered", [(A, GROW, """        let start = self.items.len();
        let end = start * 2;
        self.items.reserve(start);
        self.items.extend((start..end).map(|i| Item {
            next: i + 1,
            prev: i - 1,
            waker: dummy_waker(),
        }));
        {
            let head = &mut self.items[0];
            head.next = start + 1;
            head.prev = end - 1;
        }
        self.items[end - 1].next = 0;
        self.items[start + 1].prev = 0;
        start
""")], Q2)
T("grow-returns-last", [(A, GROW, """        let old_len = self.items.len();
        self.items.extend((old_len..(old_len * 2)).map(|idx| Item {
            waker: dummy_waker(),
            prev: idx - 1,
            next: idx + 1,
        }));
        self.items[old_len].prev = 0;
        self.items[old_len * 2 - 2].next = 0;
        let free_head = &mut self.items[0];
        free_head.prev = old_len * 2 - 2;
        free_head.next = old_len;
        old_len * 2 - 1
""")], Q2)
T("grow-loop", [(A, """        self.items.extend((old_len..(old_len * 2)).map(|idx| Item {
            waker: dummy_waker(),
            prev: idx - 1,
            next: idx + 1,
        }));
""", """        for idx in old_len..(old_len * 2) {
            self.items.push(Item {
                waker: dummy_waker(),
                prev: idx - 1,
                next: idx + 1,
            });
        }
""")], Q2)
T("update-always", [(A, """        let target = &mut self.items[slot].waker;
        if !target.will_wake(waker) {
            *target = waker.to_owned();
        }
""", """        self.items[slot].waker.clone_from(waker);
""")], Q2)
T("update-plain", [(A, """        if !target.will_wake(waker) {
            *target = waker.to_owned();
        }
""", """        if waker.will_wake(target) {
            return;
        }
        *target = waker.clone();
""")], Q2)
T("iter-reverse", [(A, """        let mut index = self.items[sublist_head_index].next;
        std::iter::from_fn(move || {
            if index != sublist_head_index {
                let item = &self.items[index];
                index = item.next;
                Some(&item.waker)
            } else {
                None
            }
        })
""", """        let mut index = self.items[sublist_head_index].prev;
        std::iter::from_fn(move || {
            if index == sublist_head_index {
                return None;
            }
            let item = &self.items[index];
            index = item.prev;
            Some(&item.waker)
        })
""")], Q2)
T("sublist-empty-prev", [(A, "if head.next == sublist_head_index {", "if head.prev == sublist_head_index {")], Q2)
T("B-remove-free-back", [(A, "        self.items[old_free_next].prev = index;\n", "")], F2)
T("B-remove-used-back", [(A, "        self.items[old_used_next].prev = old_used_prev;\n    }", "    }")], F2)
T("B-remove-keeps-waker", [(A, "        node.waker = dummy_waker();\n", "")], F2)
T("B-sublist-prev", [(A, "            head.prev = 0;\n", "")], F2)
T("B-add-order", [(A, """            self.items[old_free_next].prev = old_free_prev;
        }
        WakerSlot""", """        }
        WakerSlot""")], F2)
T("B-grow-one-more", [(A, "free_head.next = old_len + 1;", "free_head.next = old_len;"), (A, "self.items[old_len + 1].prev = 0;", "self.items[old_len].prev = 0;")], F2)
T("B-grow-loses", [(A, "free_head.prev = old_len * 2 - 1;", "free_head.prev = old_len + 1;")], F2)
T("B-iter-stops", [(A, """                index = item.next;
                Some(&item.waker)""", """                index = if item.next < index { sublist_head_index } else { item.next };
                Some(&item.waker)""")], F2)
T("B-update-first-only", [(A, "if !target.will_wake(waker) {", "if target.will_wake(&dummy_waker()) {")], F2)
T("B-sublist-any", [(A, "if head.next == sublist_head_index {", "if self.items[head.next].next == sublist_head_index {"), (A, "let head = &mut self.items[sublist_head_index];\n        if", "let head = &self.items[sublist_head_index];\n        if"), (A, "            head.prev = 0;\n", "            self.items[sublist_head_index].prev = 0;\n")], F2)

DROP = """        self.reference.version += 1;
        self.reference
            .listeners
            .iter(&SUBLIST)
            .for_each(Waker::wake_by_ref);
"""
T("drop-loop", [(B, DROP, """        let inner = &mut *self.reference;
        for waker in inner.listeners.iter(&SUBLIST) {
            waker.wake_by_ref();
        }
        inner.version = inner.version.wrapping_add(1);
"""), (B, "    task::Waker,\n", "")], Q1)
T("drop-collect", [(B, DROP, """        self.reference.version += 2;
        let wakers: Vec<Waker> = self.reference.listeners.iter(&SUBLIST).cloned().collect();
        for waker in wakers {
            waker.wake();
        }
""")], Q1)
POLL = """        let mut res = Poll::Pending;
        match this.last_version {
            0 => this.last_version = bm.version,
            lv if lv < bm.version => {
                res = Poll::Ready(Some(()));
                this.last_version = bm.version;
            }
            _ => {}
        }
        bm.listeners.update(&this.waker_slot, cx.waker());
        res
"""
T("poll-if", [(U, POLL, """        bm.listeners.update(&this.waker_slot, cx.waker());
        let seen = std::mem::replace(&mut this.last_version, bm.version);
        if seen == 0 || seen == bm.version {
            return Poll::Pending;
        }
        Poll::Ready(Some(()))
""")], Q1)
T("poll-option", [(U, POLL, """        let first = this.last_version.is_none();
        let changed = this.last_version != Some(bm.version);
        this.last_version = Some(bm.version);
        bm.listeners.update(&this.waker_slot, cx.waker());
        if changed && !first {
            Poll::Ready(Some(()))
        } else {
            Poll::Pending
        }
"""), (U, "    last_version: u64,\n", "    last_version: Option<u64>,\n"), (U, "last_version: 0,", "last_version: None,")], Q1)
T("foreach-stream", [(FE, """        loop {
            {
                func(&self.borrow());
            }
            self.until_change().await;
        }
""", """        let mut changes = std::pin::pin!(self.until_change());
        loop {
            func(&*self.borrow());
            std::future::poll_fn(|cx| std::future::Future::poll(changes.as_mut(), cx)).await;
        }
""")], Q1)
T("slot-field-via-helper", [(M, "            reference: self.inner.borrow_mut(),\n        }\n    }\n    pub fn try_borrow(", "            reference: self.inner.borrow_mut(),\n        }\n    }\n    pub fn replace(&self, data: T) -> T {\n        std::mem::replace(&mut *self.borrow_mut(), data)\n    }\n    pub fn try_borrow(")], Q1)
T("B-drop-first", [(B, "            .iter(&SUBLIST)\n", "            .iter(&SUBLIST)\n            .take(1)\n")], F1)
T("B-drop-version-if", [(B, "        self.reference.version += 1;\n", "        if self.reference.listeners.iter(&SUBLIST).next().is_some() {\n            self.reference.version += 1;\n        }\n")], F1)
T("B-poll-next-version", [(U, "lv if lv < bm.version", "lv if lv + 1 == bm.version")], F1)
T("B-poll-waker-first", [(U, "            0 => this.last_version = bm.version,\n", "            0 => {\n                this.last_version = bm.version;\n                bm.listeners.update(&this.waker_slot, cx.waker());\n            }\n"), (U, "        bm.listeners.update(&this.waker_slot, cx.waker());\n        res", "        res")], F1)
T("B-poll-baseline", [(U, "                res = Poll::Ready(Some(()));\n                this.last_version = bm.version;\n", "                res = Poll::Ready(Some(()));\n                this.last_version += 1;\n")], F1)
T("B-no-drop", [(U, """        self.target
            .inner
            .borrow_mut()
            .listeners
            .remove(&self.waker_slot);
""", """        if self.last_version != 0 {
            self.target
                .inner
                .borrow_mut()
                .listeners
                .remove(&self.waker_slot);
        }
""")], F1)
T("B-version-zero", [(M, "            version: 1,\n", "            version: 0,\n")], F1)
T("B-no-sublist", [(M, "        listeners.add_sublist();\n", "")], F1)
T("B-raw-write", [(M, "    pub fn try_borrow(", "    pub fn write(&'_ self) -> std::cell::RefMut<'_, T> {\n        std::cell::RefMut::map(self.inner.borrow_mut(), |r| &mut r.data)\n    }\n    pub fn try_borrow(")], F1)
T("B-foreach-late", [(FE, """            {
                func(&self.borrow());
            }
            self.until_change().await;
""", """            self.until_change().await;
            func(&self.borrow());
""")], F1)
T("B-foreach-gap", [(FE, """            {
                func(&self.borrow());
            }
            self.until_change().await;
""", """            {
                func(&self.borrow());
            }
            let mut first = true;
            std::future::poll_fn(|cx| if std::mem::take(&mut first) { cx.waker().wake_by_ref(); std::task::Poll::Pending } else { std::task::Poll::Ready(()) }).await;
            self.until_change().await;
""")], F1)
