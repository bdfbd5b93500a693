S = "x-bow/src/"
W, HA, HV, G, U = S+"wakers.rs", S+"hash.rs", S+"hash_visitor.rs", S+"borrow_mut_guard.rs", S+"until_change.rs"
PE, PI, ST = S+"path_ext.rs", S+"path_impl.rs", S+"store.rs"
V, HM, RC, TDM = S+"impls/stdlib/vec.rs", S+"impls/stdlib/hash_map.rs", S+"impls/stdlib/rc.rs", S+"impls/transparent.rs"
FE, FA, BF, SS = S+"path_ext/for_each.rs", S+"path_ext/for_each_async.rs", S+"path_ext/bind_for_each.rs", S+"path_ext/signal_stream.rs"
GE = "x-bow-macros/src/generate.rs"
ALL = ["X01","X02","X03","X04","X05","X06"]
Q = {p: "quiet" for p in ALL}
def F(p): return {p: "fire"}

# ---------------- behaviour kept
T("wake-loop", [(W, """            self.all_wakers
                .iter(&entry.sublist)
                .for_each(Waker::wake_by_ref);
""", """            for waker in self.all_wakers.iter(&entry.sublist) {
                waker.wake_by_ref();
            }
""")], Q)
T("wake-get-then-version", [(W, """            entry.version += 1;
            self.all_wakers
                .iter(&entry.sublist)
                .for_each(Waker::wake_by_ref);
""", """            self.all_wakers
                .iter(&entry.sublist)
                .for_each(Waker::wake_by_ref);
            entry.version = entry.version.wrapping_add(1);
""")], Q)
T("remove-by-get", [(W, """        match self.map.entry(hash.value()) {
            std::collections::hash_map::Entry::Occupied(occ) => {
                self.all_wakers.remove(slot);
                let sublist = &occ.get().sublist;
                if self.all_wakers.remove_sublist_if_empty(sublist) {
                    occ.remove();
                }
            }
            std::collections::hash_map::Entry::Vacant(_) => {
                // remove nonexistant waker
                panic!()
            }
        }
""", """        let entry = self.map.get(&hash.value()).unwrap();
        self.all_wakers.remove(slot);
        if self.all_wakers.remove_sublist_if_empty(&entry.sublist) {
            self.map.remove(&hash.value());
        }
""")], Q)
T("notify-one-borrow-each", [(G, """    let wakers = &mut *store.borrow_mut();
    let mut visitor = HashVisitor::new(HashVisitorBehavior::WakeBubblingListeners { wakers });
    path.visit_hashes(&mut visitor);
    let hash = visitor.to_regular_key();
    wakers.wake_entry(hash);
""", """    let mut store = store.borrow_mut();
    let hash = {
        let mut visitor = HashVisitor::new(HashVisitorBehavior::WakeBubblingListeners {
            wakers: &mut store,
        });
        path.visit_hashes(&mut visitor);
        visitor.to_regular_key()
    };
    store.wake_entry(hash);
""")], Q)
T("guard-drop-method", [(G, "        notify(self.store, self.path);\n", "        self.path.notify_changed();\n"), (G, "    Path,\n};", "    Path, PathExt,\n};")], Q)
T("set-opt-iflet", [(PE, """        match self.borrow_opt_mut().as_deref_mut() {
            Some(state) => {
                *state = data;
                Ok(())
            }
            None => Err(data),
        }
""", """        if let Some(mut state) = self.borrow_opt_mut() {
            *state = data;
            return Ok(());
        }
        Err(data)
""")], Q)
T("poll-loop", [(U, """        let new_version = this.slots.iter().fold(0, |ver, (hash, slot)| {
            let mut entry = store.get_entry(*hash);
            entry.set_waker(slot, new_waker);
            ver + entry.get_version()
        });
        match std::mem::replace(&mut this.last_version, new_version) {
            lv @ 1.. if lv != new_version => Poll::Ready(Some(())),
            _ => Poll::Pending,
        }
""", """        let mut new_version = 0;
        for (hash, slot) in &this.slots {
            let mut entry = store.get_entry(*hash);
            new_version += entry.get_version();
            entry.set_waker(slot, new_waker);
        }
        let last = this.last_version;
        this.last_version = new_version;
        if last == 0 || last == new_version {
            Poll::Pending
        } else {
            Poll::Ready(Some(()))
        }
""")], Q)
T("drop-loop", [(U, """        let mut store = self.store.borrow_mut();
        self.slots.iter().for_each(|(hash, slot)| {
            store.remove_waker_slot(*hash, slot);
        });
""", """        for (hash, slot) in self.slots.drain(..) {
            self.store.borrow_mut().remove_waker_slot(hash, &slot);
        }
""")], Q)
T("foreach-let-changed", [(FE, "        if first | Pin::new(&mut this.until_change).poll_next(cx).is_ready() {\n", "        let changed = Pin::new(&mut this.until_change).poll_next(cx).is_ready();\n        if changed || first {\n")], Q)
T("foreach-map", [(FE, """            if let Some(data) = this.path.borrow_opt().as_deref() {
                (this.closure)(data);
            }
""", """            this.path.borrow_opt().map(|data| (this.closure)(&data));
""")], Q)
T("foreachasync-order", [(FA, """            if let Some(data) = this.path.borrow_opt().as_deref() {
                let fut = (this.closure)(data);
                this.future.set(Some(fut));
            }
""", """            let fut = this.path.borrow_opt().map(|data| (this.closure)(&data));
            if fut.is_some() {
                this.future.set(fut);
            }
""")], Q)
T("signal-match", [(SS, """        if (first && this.fire_immediately)
            | Pin::new(&mut this.until_change).poll_next(cx).is_ready()
        {
            Poll::Ready(this.path.borrow_opt())
        } else {
            Poll::Pending
        }
""", """        match Pin::new(&mut this.until_change).poll_next(cx) {
            Poll::Pending if !(first && this.fire_immediately) => Poll::Pending,
            _ => Poll::Ready(this.path.borrow_opt()),
        }
""")], Q)
T("bind-set-opt", [(BF, """            if let Some(bm) = this.path.borrow_opt_mut().as_deref_mut() {
                *bm = val;
            } else {
                return Poll::Ready(());
            }
""", """            if this.path.set_opt(val).is_err() {
                return Poll::Ready(());
            }
""")], Q)
T("vec-borrow-match", [(V, """        self.parent
            .path_borrow()
            .and_then(|r| Ref::filter_map(r, |s| s.get(self.index)).ok())
""", """        let r = self.parent.path_borrow()?;
        match Ref::filter_map(r, |s| s.get(self.index)) {
            Ok(item) => Some(item),
            Err(_) => None,
        }
""")], Q)
T("vec-hash-via-hash", [(V, "        visitor.write_usize(self.index);\n", "        std::hash::Hash::hash(&self.index, &mut **visitor);\n")], Q)
T("vec-index-helper", [(V, """        T::new_path_builder(VecIndexMapper {
            parent: self.inner_path,
            index,
        })
""", """        T::new_path_builder(self.at(index))
"""), (V, "    pub fn index_shallow(", "    fn at(self, index: usize) -> VecIndexMapper<T, P> {\n        VecIndexMapper { parent: self.inner_path, index }\n    }\n    pub fn index_shallow(")], Q)
T("map-hash-one", [(HM, "        self.key.hash(&mut **visitor);\n", "        K::hash(&self.key, &mut **visitor);\n")], Q)
T("rc-borrow-deref", [(RC, "Ref::map(r, |rc| &**rc)", "Ref::map(r, Rc::as_ref)")], Q)
T("rc-getmut-fn", [(RC, "RefMut::filter_map(r, |rc| Rc::get_mut(rc)).ok()", "RefMut::filter_map(r, Rc::get_mut).ok()")], Q)
T("regular-shift", [(HA, "Self((hash & INVERT_DEPTH_MASK) | (depth as u64))", "Self((hash & INVERT_DEPTH_MASK) + u64::from(depth))")], Q)
T("root-two-steps", [(ST, "        visitor.finish_one();\n", "        let v = visitor;\n        v.finish_one();\n")], Q)

# ---------------- wakers.rs / hash.rs / hash_visitor.rs
T("wake-first-only", [(W, "                .for_each(Waker::wake_by_ref);", "                .take(1)\n                .for_each(Waker::wake_by_ref);")], F("X02"))
T("wake-all-but-first", [(W, "                .for_each(Waker::wake_by_ref);", "                .skip(1)\n                .for_each(Waker::wake_by_ref);")], F("X02"))
T("version-only-if-waiting", [(W, "            entry.version += 1;\n", "            if self.all_wakers.iter(&entry.sublist).next().is_some() {\n                entry.version += 1;\n            }\n")], F("X02"))
T("version-masked", [(W, "            entry.version += 1;\n", "            entry.version = (entry.version + 1) & 0xff;\n")], F("X02"))
T("version-toggle", [(W, "            entry.version += 1;\n", "            entry.version ^= 2;\n")], F("X02"))
T("version-starts-zero", [(W, "            version: 1,", "            version: 0,")], F("X05"))
T("entry-replaced-on-wake", [(W, "        if let Some(entry) = self.map.get_mut(&hash.value()) {\n", "        if let Some(entry) = self.map.get_mut(&(hash.value() | 1)) {\n")], F("X02"))
T("add-slot-bumps", [(W, "        self.all.add(&self.entry.sublist)", "        self.entry.version += 1;\n        self.all.add(&self.entry.sublist)")], F("X05"))
T("set-waker-only-if-will-not", [(W, "        self.all.update(slot, waker)", "        if self.entry.version == 1 {\n            self.all.update(slot, waker)\n        }")], F("X05"))
T("remove-keeps-slot-if-last", [(W, """                self.all_wakers.remove(slot);
                let sublist = &occ.get().sublist;
                if self.all_wakers""", """                let sublist = &occ.get().sublist;
                if occ.get().version > 1 {
                    self.all_wakers.remove(slot);
                }
                if self.all_wakers""")], F("X05"))
T("remove-entry-always", [(W, """                if self.all_wakers.remove_sublist_if_empty(sublist) {
                    occ.remove();
                }
""", """                self.all_wakers.remove_sublist_if_empty(sublist);
                occ.remove();
""")], F("X05"))
T("remove-entry-keeps-freed-sublist", [(W, """                if self.all_wakers.remove_sublist_if_empty(sublist) {
                    occ.remove();
                }
""", """                self.all_wakers.remove_sublist_if_empty(sublist);
""")], F("X05"))
T("depth-mask-wide", [(HA, "!(u8::MAX as u64)", "!(u16::MAX as u64)")], {})
T("depth-into-regular-lost", [(HA, "Self((hash & INVERT_DEPTH_MASK) | (depth as u64))", "Self((hash & INVERT_DEPTH_MASK) | (depth as u64 & 0))")], {})
T("bubbling-is-regularlike", [(HA, "Self(hash ^ 0x33b741db0040f7e)", "Self(hash)")], {})
T("finish-depth-saturates-low", [(HV, "        self.depth = self.depth.wrapping_add(1);", "        self.depth = self.depth.wrapping_add(1).min(3);")], {})
T("to-regular-depth-off", [(HV, "WakerHashEntry::regular_from(self.hasher.finish(), self.depth)\n    }", "WakerHashEntry::regular_from(self.hasher.finish(), self.depth.wrapping_add(1))\n    }")], F("X02"))
T("build-before-depth", [(HV, "                let hash = WakerHashEntry::regular_from(self.hasher.finish(), self.depth);", "                let hash = WakerHashEntry::regular_from(self.hasher.finish(), self.depth - 1);")], F("X02"))
T("build-regular-at-even", [(HV, "                notifiers_list.push((hash, slot));", "                if self.depth < 32 {\n                    notifiers_list.push((hash, slot));\n                }")], F("X02"))
T("build-pushes-first", [(HV, "                notifiers_list.push((hash, slot));", "                notifiers_list.clear();\n                notifiers_list.push((hash, slot));")], F("X02"))
T("bubbling-skips-root", [(HV, "                wakers.wake_entry(hash);", "                if self.depth > 1 {\n                    wakers.wake_entry(hash);\n                }")], F("X02"))
T("bubbling-as-regular", [(HV, "                let hash = WakerHashEntry::bubbling_from(self.hasher.finish());", "                let hash = WakerHashEntry::regular_from(self.hasher.finish(), self.depth);")], F("X02"))
T("visitor-starts-depth1", [(HV, "            depth: 0,", "            depth: if matches!(behavior, HashVisitorBehavior::GetHash {}) { 1 } else { 0 },"), (HV, "            behavior,\n", "", ), (HV, "            hasher: HasherType::new(),\n", "            hasher: HasherType::new(),\n            behavior,\n")] , {})
# ---------------- guard
T("guard-notify-if-written", [(G, "        notify(self.store, self.path);", "        if self.written {\n            notify(self.store, self.path);\n        }"), (G, "    path: &'b P,\n}", "    path: &'b P,\n    written: bool,\n}"), (G, "Self { inner, store, path }", "Self { inner, store, path, written: false }"), (G, "        self.inner.deref_mut()", "        self.written = true;\n        self.inner.deref_mut()")], {})
T("guard-notify-try", [(G, "        notify(self.store, self.path);", "        if self.store.try_borrow_mut().is_ok() {\n            notify(self.store, self.path);\n        }")], {})
T("guard-notify-at-new", [(G, "        Self { inner, store, path }", "        notify(store, path);\n        Self { inner, store, path }"), (G, "        notify(self.store, self.path);", "")], F("X01"))
T("notify-no-regular", [(G, "    wakers.wake_entry(hash);", "    let _ = (wakers, hash);")], F("X01"))
T("notify-bubbling-key", [(G, "    let hash = visitor.to_regular_key();", "    let hash = visitor.to_bubbling_key();")], F("X02"))
T("notify-get-hash", [(G, "    let mut visitor = HashVisitor::new(HashVisitorBehavior::WakeBubblingListeners { wakers });", "    let mut visitor = HashVisitor::new(HashVisitorBehavior::GetHash {});")], F("X01"))
T("notify-visits-twice", [(G, "    path.visit_hashes(&mut visitor);", "    path.visit_hashes(&mut visitor);\n    path.visit_hashes(&mut visitor);")], F("X02"))
# ---------------- path_ext
T("borrow-mut-unguarded-zst", [(PE, "        match self.borrow_opt_mut().as_deref_mut() {\n            Some(state) => {\n                *state = data;", "        match self.borrow_opt_mut_without_notifying().as_deref_mut() {\n            Some(state) => {\n                *state = data;\n                self.notify_changed();")], {})
T("set-silent", [(PE, "        match self.borrow_opt_mut().as_deref_mut() {", "        match self.borrow_opt_mut_without_notifying().as_deref_mut() {")], F("X01"))
T("set-swallows", [(PE, "                *state = data;\n                Ok(())", "                let old = std::mem::replace(state, data);\n                Err(old)")], F("X01"))
T("without-notifying-notifies", [(PE, "    fn borrow_opt_mut_without_notifying(&self) -> Option<RefMut<'_, <Self as Path>::Out>> {\n", "    fn borrow_opt_mut_without_notifying(&self) -> Option<RefMut<'_, <Self as Path>::Out>> {\n        self.notify_changed();\n")], {"X01": "fire"})
T("borrow-opt-notifies", [(PE, "    fn borrow_opt(&self) -> Option<Ref<'_, <Self as Path>::Out>> {\n", "    fn borrow_opt(&self) -> Option<Ref<'_, <Self as Path>::Out>> {\n        self.notify_changed();\n")], F("X01"))
T("until-change-bubbling", [(PE, "        UntilChange::new(self.store_wakers(), self)\n", "        UntilChange::new_bubbling(self.store_wakers(), self)\n")], F("X02"))
T("foreach-bubbling", [(PE, "for_each::ForEach::new(self, self.until_change(), closure)", "for_each::ForEach::new(self, self.until_bubbling_change(), closure)")], F("X06"))
T("bind-bubbling", [(PE, "bind_for_each::BindForEach::new(self, self.until_change(),", "bind_for_each::BindForEach::new(self, self.until_bubbling_change(),")], F("X06"))
T("signal-not-fire", [(PE, "signal_stream::SignalStream::new(self, self.until_change(), fire_immediately)", "signal_stream::SignalStream::new(self, self.until_change(), !fire_immediately)")], F("X06"))
# ---------------- until_change
T("poll-skip-baseline", [(U, "            lv @ 1.. if lv != new_version", "            lv if lv != new_version")], F("X05"))
T("poll-gt", [(U, "            lv @ 1.. if lv != new_version", "            lv @ 2.. if lv != new_version")], F("X05"))
T("poll-last-slot-only", [(U, "            ver + entry.get_version()", "            let _ = ver;\n            entry.get_version()")], F("X05"))
T("poll-xor-version", [(U, "            ver + entry.get_version()", "            ver ^ entry.get_version()")], F("X05"))
T("poll-max-version", [(U, "            ver + entry.get_version()", "            ver.max(entry.get_version())")], F("X05"))
T("poll-waker-first-time", [(U, "            entry.set_waker(slot, new_waker);", "            if this.last_version == 0 {\n                entry.set_waker(slot, new_waker);\n            }")], F("X05"))
T("poll-waker-not-when-ready", [(U, "            entry.set_waker(slot, new_waker);\n            ver + entry.get_version()\n        });", "            ver + entry.get_version()\n        });\n        if this.last_version == new_version || this.last_version == 0 {\n            for (hash, slot) in this.slots.iter() {\n                store.get_entry(*hash).set_waker(slot, new_waker);\n            }\n        }")], F("X05"))
T("poll-keeps-last", [(U, "        match std::mem::replace(&mut this.last_version, new_version) {\n            lv @ 1.. if lv != new_version => Poll::Ready(Some(())),", "        if this.last_version == 0 {\n            this.last_version = new_version;\n        }\n        match this.last_version {\n            lv @ 1.. if lv != new_version => {\n                this.last_version += 1;\n                Poll::Ready(Some(()))\n            }")], F("X05"))
T("poll-ready-none", [(U, "            lv @ 1.. if lv != new_version => Poll::Ready(Some(())),", "            lv @ 1.. if lv != new_version => Poll::Ready(if lv > new_version { None } else { Some(()) }),")], {})
T("drop-first", [(U, "        self.slots.iter().for_each(|(hash, slot)| {", "        self.slots.iter().take(1).for_each(|(hash, slot)| {")], F("X05"))
T("drop-not-unpolled", [(U, "        let mut store = self.store.borrow_mut();\n        self.slots.iter().for_each", "        if self.last_version == 0 {\n            return;\n        }\n        let mut store = self.store.borrow_mut();\n        self.slots.iter().for_each")], F("X05"))
T("drop-other-slot", [(U, "            store.remove_waker_slot(*hash, slot);", "            let _ = hash;\n            store.remove_waker_slot(self.slots[0].0, slot);")], F("X05"))
T("bubbling-regular-key", [(U, "                let hash = visitor.to_bubbling_key();", "                let hash = visitor.to_regular_key();")], F("X02"))
T("new-other-list", [(U, "                mapper.visit_hashes(&mut visitor);\n                slots\n", "                mapper.visit_hashes(&mut visitor);\n                slots.truncate(8);\n                slots\n")], {})
T("new-reversed", [(U, "                mapper.visit_hashes(&mut visitor);\n                slots\n", "                mapper.visit_hashes(&mut visitor);\n                slots.reverse();\n                slots\n")], Q)
T("has-been-polled-ge", [(U, "        self.last_version > 0", "        self.last_version > 1")], {})
# ---------------- adaptors
T("fe-lazy", [(FE, "first | Pin", "first || Pin")], F("X06"))
T("fe-absent-still", [(FE, "            if let Some(data) = this.path.borrow_opt().as_deref() {\n                (this.closure)(data);\n            }\n", "            if let Some(data) = this.path.borrow_opt().as_deref() {\n                (this.closure)(data);\n            } else {\n                return Poll::Ready(());\n            }\n")], F("X06"))
T("fe-loop", [(FE, "        if first | Pin::new(&mut this.until_change).poll_next(cx).is_ready() {", "        if first | Pin::new(&mut this.until_change).poll_next(cx).is_ready() {\n            let _ = Pin::new(&mut this.until_change).poll_next(cx);")], {})
T("fe-swallow", [(FE, "                (this.closure)(data);\n            }\n", "                (this.closure)(data);\n            }\n            let _ = Pin::new(&mut this.until_change).poll_next(cx);\n")], F("X06"))
T("fe-mut", [(FE, "this.path.borrow_opt().as_deref()", "this.path.borrow_opt_mut_without_notifying().as_deref_mut()")], {})
T("fe-mut-notify", [(FE, "this.path.borrow_opt().as_deref()", "this.path.borrow_opt_mut().as_deref_mut()")], F("X06"))
T("fa-lazy", [(FA, "first | Pin", "first || Pin")], F("X06"))
T("fa-drop-running-only-if-none", [(FA, "                this.future.set(Some(fut));", "                if this.future.is_none() {\n                    this.future.set(Some(fut));\n                }")], F("X06"))
T("fa-no-clear", [(FA, "            if fut.poll(cx).is_ready() {\n                this.future.set(None);\n            }", "            let _ = fut.poll(cx);")], F("X06"))
T("fa-clears-on-absent", [(FA, "                this.future.set(Some(fut));\n            }", "                this.future.set(Some(fut));\n            } else {\n                this.future.set(None);\n            }")], {})
T("fa-poll-first-then-change", [(FA, "        let first = !this.until_change.has_been_polled();", "        if let Some(fut) = this.future.as_mut().as_pin_mut() {\n            if fut.poll(cx).is_ready() {\n                this.future.set(None);\n            }\n        }\n        let first = !this.until_change.has_been_polled();")], {})
T("fa-poll-only-when-changed", [(FA, "        if let Some(fut) = this.future.as_mut().as_pin_mut() {", "        if !first {\n            return Poll::Pending;\n        }\n        if let Some(fut) = this.future.as_mut().as_pin_mut() {")], F("X06"))
T("fa-finish-ready", [(FA, "                this.future.set(None);\n            }", "                this.future.set(None);\n                return Poll::Ready(());\n            }")], F("X06"))
T("ss-always-first", [(SS, "(first && this.fire_immediately)", "(first || this.fire_immediately)")], F("X06"))
T("ss-lazy", [(SS, "            | Pin", "            || Pin")], F("X06"))
T("ss-none-pending", [(SS, "            Poll::Ready(this.path.borrow_opt())", "            match this.path.borrow_opt() {\n                Some(d) => Poll::Ready(Some(d)),\n                None => Poll::Pending,\n            }")], F("X06"))
T("bf-echo", [(BF, "            let _ = this.until_change.as_mut().poll_next(cx);\n", "")], F("X06"))
T("bf-first-of-incoming", [(BF, "                    val = Some(v);\n", "                    val.get_or_insert(v);\n")], F("X06"))
T("bf-one-per-poll", [(BF, "                    val = Some(v);\n", "                    val = Some(v);\n                    break;\n")], F("X06"))
T("bf-finish-drops-val", [(BF, "                    finished = true;\n                    break;", "                    return Poll::Ready(());")], F("X06"))
T("bf-absent-goes-on", [(BF, "            } else {\n                return Poll::Ready(());\n            }\n", "            }\n")], {})
T("bf-silent-write", [(BF, "this.path.borrow_opt_mut()", "this.path.borrow_opt_mut_without_notifying()")], {"X06": "fire"})
T("bf-lazy", [(BF, "first | this", "first || this")], F("X06"))
T("bf-finish-pending", [(BF, "        if finished {\n            return Poll::Ready(());\n        }\n", "        if finished && !first {\n            return Poll::Ready(());\n        }\n")], F("X06"))
T("bf-swallow-else", [(BF, "        if let Some(val) = val {\n", "        let _ = this.until_change.as_mut().poll_next(cx);\n        if let Some(val) = val {\n")], F("X06"))
# ---------------- paths
T("vec-clone-resets", [(V, "            index: self.index,\n", "            index: 0,\n")], {})
T("vec-clamp", [(V, "s.get_mut(self.index)", "{\n                let i = self.index.min(s.len().wrapping_sub(1));\n                s.get_mut(i)\n            }")], F("X03"))
T("vec-reverse-mut", [(V, "s.get_mut(self.index)", "s.iter_mut().rev().nth(self.index)")], F("X03"))
T("vec-hash-u8", [(V, "visitor.write_usize(self.index)", "visitor.write_u16(self.index as u16)")], F("X03"))
T("vec-hash-first", [(V, "        self.parent.visit_hashes(visitor);\n        visitor.write_usize(self.index);\n", "        visitor.write_usize(self.index);\n        self.parent.visit_hashes(visitor);\n")], F("X03"))
T("vec-no-finish", [(V, "        visitor.finish_one();\n", "")], F("X03"))
T("vec-shallow-zero", [(V, "        LeafPathBuilder::new(VecIndexMapper {\n            parent: self.inner_path,\n            index,\n", "        LeafPathBuilder::new(VecIndexMapper {\n            parent: self.inner_path,\n            index: index + 1,\n")], {})
T("map-hash-missing", [(HM, "        self.key.hash(&mut **visitor);\n", "        let _ = &self.key;\n")], F("X03"))
T("map-hash-after", [(HM, "        self.key.hash(&mut **visitor);\n        visitor.finish_one();\n", "        visitor.finish_one();\n        self.key.hash(&mut **visitor);\n")], F("X03"))
T("map-finish-twice", [(HM, "        visitor.finish_one();\n", "        visitor.finish_one();\n        visitor.finish_one();\n")], F("X03"))
T("map-inserts-any", [(HM, "hm.get_mut(&self.key)", "hm.values_mut().next()")], F("X03"))
T("rc-hash-sizes", [(RC, "        visitor.write_u8(0);\n        visitor.finish_one();\n", "        visitor.finish_one();\n")], {})
T("rc-unsafe", [(RC, "RefMut::filter_map(r, |rc| Rc::get_mut(rc)).ok()", "RefMut::filter_map(r, |rc| unsafe { (Rc::as_ptr(rc) as *mut T).as_mut() }).ok()")], {})
T("tr-no-level", [(TDM, "        visitor.finish_one();\n", "")], F("X03"))
T("pi-rc-double", [(PI, "        (**self).visit_hashes(visitor)\n    }\n\n    fn store_wakers(&self) -> &RefCell<StoreWakers> {\n        (**self).store_wakers()\n    }\n}\n\nimpl<'t, T> Path for Box", "        (**self).visit_hashes(visitor);\n        visitor.finish_one()\n    }\n\n    fn store_wakers(&self) -> &RefCell<StoreWakers> {\n        (**self).store_wakers()\n    }\n}\n\nimpl<'t, T> Path for Box")], F("X03"))
T("pi-ref-hash-none", [(PI, "        self.0.visit_hashes(visitor)\n", "        visitor.finish_one();\n        self.0.visit_hashes(visitor)\n")], F("X03"))
T("st-root-none", [(ST, "        Some(self.store.data.borrow())", "        self.store.data.try_borrow().ok()")], {})
T("st-guaranteed-vec", [(V, "impl<T, P: Path<Out = Vec<T>>> Path for VecIndexMapper<T, P> {", "impl<T, P: Path<Out = Vec<T>> + crate::PathExtGuaranteed> crate::PathExtGuaranteed for VecIndexMapper<T, P> {}\nimpl<T, P: Path<Out = Vec<T>>> Path for VecIndexMapper<T, P> {")], F("X04"))
# ---------------- derive macro
T("gen-index-per-variant", [(GE, "    for (field_index, field) in filtered_fields.iter().enumerate() {\n", "    for field in filtered_fields.iter() {\n        let field_index = match field { ToGenField::Struct { index, .. } | ToGenField::Enum { index, .. } => *index };\n")], F("X03"))
T("gen-index-declared-struct", [(GE, "    for (field_index, field) in filtered_fields.iter().enumerate() {\n", "    for (field_index, field) in filtered_fields.iter().enumerate() {\n        let field_index = match field { ToGenField::Struct { index, .. } => *index, ToGenField::Enum { .. } => field_index };\n")], Q)
T("gen-index-low", [(GE, "    for (field_index, field) in filtered_fields.iter().enumerate() {\n", "    for (field_index, field) in filtered_fields.iter().enumerate() {\n        let field_index = field_index / 2;\n")], F("X03"))
T("gen-enum-underscore", [(GE, "(0..*index).map", "(0..index.saturating_sub(1)).map")], {})
T("gen-enum-guaranteed", [(GE, "let guarantee_code = if is_struct {", "let guarantee_code = if is_struct || filtered_fields.len() == 1 {")], F("X04"))
T("gen-no-finish", [(GE, "                    visitor.finish_one();\n", "")], F("X03"))
T("gen-hash-before-parent", [(GE, "                    #prefix::Path::visit_hashes(&self.#parent_value_name, visitor);\n                    ::std::hash::Hasher::write_usize(&mut **visitor, #field_index);\n", "                    ::std::hash::Hasher::write_usize(&mut **visitor, #field_index);\n                    #prefix::Path::visit_hashes(&self.#parent_value_name, visitor);\n")], F("X03"))
T("gen-u8", [(GE, "::std::hash::Hasher::write_usize(&mut **visitor, #field_index)", "::std::hash::Hasher::write_u32(&mut **visitor, #field_index as u32)")], Q)
T("gen-field-mut-other", [(GE, "                            #ref_or_refmut :: map(\n", "                            #ref_or_refmut :: map(\n")], {})
