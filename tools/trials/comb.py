B = "async_ui_web_core/src/combinators/"
V, A, TU = B + "common/vec.rs", B + "common/array.rs", B + "common/tuple.rs"
RA, RV = B + "utils/wakers/array/readiness.rs", B + "utils/wakers/vec/readiness.rs"
WA, WV = B + "utils/wakers/array/waker_array.rs", B + "utils/wakers/vec/waker_vec.rs"
SA = B + "utils/wakers/shared_arc.rs"
Q = {"C01": "quiet", "C02": "quiet", "C03": "quiet", "C04": "quiet", "C05": "quiet"}
T("vec-take-buffer", [(V, "for index in this.awake_list_buffer.drain(..) {", "let queue = std::mem::take(this.awake_list_buffer);\n        for index in queue.into_iter() {")], Q)
T("vec-index-loop", [(V, "for index in this.awake_list_buffer.drain(..) {", "for n in 0..this.awake_list_buffer.len() {\n            let index = this.awake_list_buffer[n];")], Q)
T("tuple-reorder", [(TU, "*this.pending -= 1;\n                        *filled = true;", "*filled = true;\n                        *this.pending -= 1;")], Q)
T("wake-first", [(RV, "if !self.set_woken(index) && self.awake_list.len() == 1 {\n            self.parent_waker.wake_by_ref();\n        }",
  "let first = self.awake_list.is_empty();\n        if self.set_woken(index) {\n            return;\n        }\n        if first {\n            self.parent_waker.wake_by_ref();\n        }")], Q)
T("clear-always-fill", [(RA, """        if self.awake_list_len < Self::TRESHOLD {
            self.awake_set.fill(false);
        } else {
            let awake_set = &mut self.awake_set;
            self.awake_list.iter().for_each(|&idx| {
                awake_set[idx] = false;
            });
        }
""", "        self.awake_set.fill(false);\n"), (RA, "    const TRESHOLD: usize = N / 64;\n", "")], Q)
T("clear-loop", [(RV, """            self.awake_list.drain(..).for_each(|idx| {
                awake_set.set(idx, false);
            });""", """            for idx in self.awake_list.drain(..) {
                awake_set.set(idx, false);
            }""")], Q)
T("parent-waker-clone-from", [(RA, """        if !self.parent_waker.will_wake(waker) {
            self.parent_waker = waker.to_owned();
        }""", "        self.parent_waker.clone_from(waker);"), (RV, """        if !self.parent_waker.will_wake(waker) {
            self.parent_waker = waker.to_owned();
        }""", "        self.parent_waker = waker.clone();")], Q)
T("arc-clone-manuallydrop", [(SA, "unsafe { Arc::increment_strong_count(*pointer) };", "let arc = core::mem::ManuallyDrop::new(unsafe { Arc::from_raw(*pointer) });\n        core::mem::forget(Arc::clone(&*arc));"),
  (SA, "unsafe { Arc::decrement_strong_count(raw) };", "drop(unsafe { Arc::from_raw(raw) });")], Q)
T("drop-by-index", [(A, """        for (&filled, output) in this.filled.iter().zip(this.items.iter_mut()) {
            if filled {
                // SAFETY: filled is only set to true for initialized items.
                unsafe { output.assume_init_drop() };
            }
        }""", """        for i in 0..N {
            if this.filled[i] {
                unsafe { this.items[i].assume_init_drop() };
            }
        }""")], Q)
T("vec-drop-clears", [(V, "unsafe { output.assume_init_drop() }\n            }\n        }", "unsafe { output.assume_init_drop() }\n            }\n        }\n        this.items.clear();")], Q)
T("array-match-poll", [(A, """            if let Poll::Ready(value) = DOM_CONTEXT.with(|parent: &DomContext| {
                let ctx = DomContext::Child {
                    parent,
                    index: index as _,
                };
                DOM_CONTEXT.set(&ctx, || fut.poll(&mut cx))
            }) {
                match B::maybe_return(index, value) {""", """            let polled = DOM_CONTEXT.with(|parent: &DomContext| {
                let ctx = DomContext::Child {
                    parent,
                    index: index as u32,
                };
                DOM_CONTEXT.set(&ctx, move || fut.poll(&mut cx))
            });
            let value = match polled {
                Poll::Pending => continue,
                Poll::Ready(value) => value,
            };
            {
                match B::maybe_return(index, value) {""")], Q)
T("lock-helper", [(V, """        {
            let mut readiness = this.wakers.readiness();
            readiness.set_parent_waker(cx.waker());

            this.awake_list_buffer.clone_from(readiness.awake_list());

            readiness.clear();
        }
""", """        take_awake(this.wakers, cx, this.awake_list_buffer);
"""), (V, "/// Drop the already", """fn take_awake(wakers: &WakerVec, cx: &Context<'_>, buffer: &mut Vec<usize>) {
    let mut readiness = wakers.readiness();
    buffer.clear();
    buffer.extend_from_slice(readiness.awake_list());
    readiness.clear();
    readiness.set_parent_waker(cx.waker());
}

/// Drop the already""")], Q)
T("wake-after-unlock", [(WV, "        self.readiness.lock().unwrap().wake(index);", "        let parent = self.readiness.lock().unwrap().wake(index);\n        if let Some(parent) = parent {\n            parent.wake();\n        }"),
  (RV, """    pub(crate) fn wake(&mut self, index: usize) {
        if !self.set_woken(index) && self.awake_list.len() == 1 {
            self.parent_waker.wake_by_ref();
        }
    }""", """    pub(crate) fn wake(&mut self, index: usize) -> Option<Waker> {
        if !self.set_woken(index) && self.awake_list.len() == 1 {
            Some(self.parent_waker.clone())
        } else {
            None
        }
    }""")], Q)
T("behaviour-helper", [(B + "try_join/vec.rs", """        match res {
            Ok(v) => ControlFlow::Continue(v),
            Err(e) => ControlFlow::Break(Err(e)),
        }""", """        res.map_or_else(|e| ControlFlow::Break(Err(e)), ControlFlow::Continue)""")], Q)
T("vec-len-check", [(V, "        if *this.pending == 0 {\n            debug_assert!(", "        let left = *this.pending;\n        if left == 0 {\n            debug_assert!(")], Q)
T("vec-items-loop", [(V, """            items: std::iter::repeat_with(MaybeUninit::uninit)
                .take(len)
                .collect(),""", """            items: (0..len).map(|_| MaybeUninit::uninit()).collect(),""")], Q)
T("array-pending-recount", [(A, "                        *this.pending -= 1;", "                        let left = *this.pending - 1;\n                        *this.pending = left;")], Q)
T("done-if-first", [(A, "        if *this.pending == 0 {\n            // Check", "        if *this.pending != 0 {\n            return Poll::Pending;\n        }\n        {\n            // Check"),
   (A, "            Poll::Ready(B::when_completed(items))\n        } else {\n            Poll::Pending\n        }", "            Poll::Ready(B::when_completed(items))\n        }")], Q)
