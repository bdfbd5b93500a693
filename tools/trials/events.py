H = "async_ui_web_html/src/event_handling.rs"
Q, F = {"E03": "quiet"}, {"E03": "fire"}
WAKER = """            let shared = &mut *this.shared.borrow_mut();
            let waker = cx.waker();
            if !shared.1.will_wake(waker) {
                shared.1 = waker.to_owned();
            }
"""
CB = """                if let Some(strong) = shared_weak.upgrade() {
                    let inner = &mut *strong.borrow_mut();
                    inner.0 = Some(ev.unchecked_into());
                    inner.1.wake_by_ref();
                }
                async_ui_web_core::executor::run_now();
"""
ADD = """            if let Some(options) = &this.options {
                this.target
                    .add_event_listener_with_callback_and_add_event_listener_options(
                        &this.event_name,
                        listener,
                        options,
                    )
                    .unwrap_throw();
            } else {
                this.target
                    .add_event_listener_with_callback(&this.event_name, listener)
                    .unwrap_throw();
            }
"""
TAIL = """            this.closure = Some(closure);
            Poll::Pending
        } else if let Some(ev) = this.shared.borrow_mut().0.take() {
            Poll::Ready(Some(ev))
        } else {
            Poll::Pending
        }
"""
REM = """        if let Some(callback) = self.closure.take() {
            self.target
                .remove_event_listener_with_callback_and_bool(
                    &self.event_name,
                    callback.as_ref().unchecked_ref(),
                    self.capture,
                )
                .unwrap_throw();
        }
"""
# ---- quiet
T("waker-always", [(H, WAKER, "            this.shared.borrow_mut().1 = cx.waker().clone();\n")], Q)
T("waker-clone-from", [(H, WAKER, "            this.shared.borrow_mut().1.clone_from(cx.waker());\n")], Q)
T("waker-after-take", [(H, """        {
""" + WAKER + """        }

""", ""), (H, TAIL, """            this.closure = Some(closure);
        }
        let shared = &mut *this.shared.borrow_mut();
        shared.1 = cx.waker().to_owned();
        match shared.0.take() {
            Some(ev) => Poll::Ready(Some(ev)),
            None => Poll::Pending,
        }
""")], Q)
T("take-by-map", [(H, TAIL, """            this.closure = Some(closure);
            return Poll::Pending;
        }
        this.shared.borrow_mut().0.take().map_or(Poll::Pending, |ev| Poll::Ready(Some(ev)))
""")], Q)
T("cb-early-return", [(H, CB, """                let Some(strong) = shared_weak.upgrade() else {
                    async_ui_web_core::executor::run_now();
                    return;
                };
                {
                    let mut inner = strong.borrow_mut();
                    inner.0.replace(ev.unchecked_into());
                }
                let waker = strong.borrow().1.clone();
                drop(strong);
                waker.wake();
                async_ui_web_core::executor::run_now();
""")], Q)
T("cb-wake-first", [(H, CB, """                if let Some(strong) = shared_weak.upgrade() {
                    let mut inner = strong.borrow_mut();
                    inner.1.wake_by_ref();
                    inner.0 = Some(ev.unchecked_into());
                }
                async_ui_web_core::executor::run_now();
""")], Q)
T("cb-strong", [(H, "            let shared_weak = Rc::downgrade(&this.shared);\n", "            let shared = this.shared.clone();\n"), (H, CB, """                {
                    let mut inner = shared.borrow_mut();
                    inner.0 = Some(ev.unchecked_into());
                    inner.1.wake_by_ref();
                }
                async_ui_web_core::executor::run_now();
""")], Q)
T("add-always-options", [(H, ADD, """            let plain = AddEventListenerOptions::new();
            let options = this.options.as_ref().unwrap_or(&plain);
            this.target
                .add_event_listener_with_callback_and_add_event_listener_options(
                    &this.event_name,
                    listener,
                    options,
                )
                .unwrap_throw();
""")], Q)
T("add-match", [(H, ADD, """            let done = match this.options.as_ref() {
                Some(options) => this
                    .target
                    .add_event_listener_with_callback_and_add_event_listener_options(
                        this.event_name.as_ref(),
                        listener,
                        options,
                    ),
                None => this
                    .target
                    .add_event_listener_with_callback(this.event_name.as_ref(), listener),
            };
            done.unwrap_throw();
""")], Q)
T("add-helper", [(H, ADD, "            this.listen(listener);\n"), (H, "    /// The `passive` option", """    fn listen(&self, listener: &js_sys::Function) {
        match &self.options {
            Some(o) => self.target.add_event_listener_with_callback_and_add_event_listener_options(&self.event_name, listener, o),
            None => self.target.add_event_listener_with_callback(&self.event_name, listener),
        }
        .unwrap_throw();
    }
    /// The `passive` option""")], Q)
T("rem-early", [(H, REM, """        let Some(callback) = self.closure.take() else {
            return;
        };
        let function = callback.as_ref().unchecked_ref();
        let res = if self.capture {
            self.target.remove_event_listener_with_callback_and_bool(&self.event_name, function, true)
        } else {
            self.target.remove_event_listener_with_callback(&self.event_name, function)
        };
        res.unwrap_throw();
""")], Q)
T("rem-as-ref", [(H, "self.closure.take() {\n            self.target", "self.closure.as_ref() {\n            self.target")], Q)
T("options-lazily", [(H, """        self.options
            .get_or_insert_with(AddEventListenerOptions::new)
            .passive(passive);
""", """        let mut options = self.options.take().unwrap_or_default();
        options.passive(passive);
        self.options = Some(options);
"""), (H, "            .get_or_insert_with(AddEventListenerOptions::new)\n            .capture(capture);", "            .get_or_insert_with(|| AddEventListenerOptions::new())\n            .capture(capture);")], Q)
T("shared-struct", [(H, "    shared: Rc<RefCell<(Option<E>, Waker)>>,\n", "    shared: Rc<Shared<E>>,\n"),
  (H, "/// A struct implementing both", "struct Shared<E> {\n    last: RefCell<Option<E>>,\n    waker: RefCell<Waker>,\n}\n\n/// A struct implementing both"),
  (H, "Rc::new(RefCell::new((None, dummy_waker()))),", "Rc::new(Shared { last: RefCell::new(None), waker: RefCell::new(dummy_waker()) }),"),
  (H, WAKER, "            *this.shared.waker.borrow_mut() = cx.waker().clone();\n"),
  (H, CB, """                if let Some(strong) = shared_weak.upgrade() {
                    strong.last.replace(Some(ev.unchecked_into()));
                    strong.waker.borrow().wake_by_ref();
                }
                async_ui_web_core::executor::run_now();
"""), (H, "this.shared.borrow_mut().0.take() {", "this.shared.last.take() {")], Q)
T("option-waker", [(H, "Rc<RefCell<(Option<E>, Waker)>>,", "Rc<RefCell<(Option<E>, Option<Waker>)>>,"), (H, "(None, dummy_waker())", "(None, None)"),
  (H, WAKER, "            this.shared.borrow_mut().1 = Some(cx.waker().clone());\n"),
  (H, "                    inner.1.wake_by_ref();\n", "                    if let Some(waker) = inner.1.take() {\n                        waker.wake();\n                    }\n"),
  (H, "use async_ui_internal_utils::dummy_waker::dummy_waker;\n", "")], Q)
T("run-if-new", [(H, CB, """                let mut first = false;
                if let Some(strong) = shared_weak.upgrade() {
                    let inner = &mut *strong.borrow_mut();
                    first = inner.0.replace(ev.unchecked_into()).is_none();
                    inner.1.wake_by_ref();
                }
                if first {
                    async_ui_web_core::executor::run_now();
                }
""")], Q)
T("wake-if-new", [(H, "                    inner.0 = Some(ev.unchecked_into());\n                    inner.1.wake_by_ref();\n", """                    if inner.0.replace(ev.unchecked_into()).is_none() {
                        inner.1.wake_by_ref();
                    }
""")], Q)
# ---- fire
T("waker-first-poll-only", [(H, WAKER, ""), (H, "            let shared_weak =", "            this.shared.borrow_mut().1 = cx.waker().to_owned();\n            let shared_weak =")], F)
T("waker-kept", [(H, "if !shared.1.will_wake(waker) {", "if shared.1.will_wake(waker) {")], F)
T("run-before-wake", [(H, CB, """                async_ui_web_core::executor::run_now();
                if let Some(strong) = shared_weak.upgrade() {
                    let inner = &mut *strong.borrow_mut();
                    inner.0 = Some(ev.unchecked_into());
                    inner.1.wake_by_ref();
                }
""")], F)
T("no-run", [(H, "                async_ui_web_core::executor::run_now();\n", "")], F)
T("run-inside", [(H, CB, """                if let Some(strong) = shared_weak.upgrade() {
                    let inner = &mut *strong.borrow_mut();
                    inner.0 = Some(ev.unchecked_into());
                    inner.1.wake_by_ref();
                    async_ui_web_core::executor::run_now();
                }
""")], F)
T("first-event-kept", [(H, "                    inner.0 = Some(ev.unchecked_into());\n", "                    inner.0.get_or_insert_with(|| ev.unchecked_into());\n")], F)
T("clone-out", [(H, "this.shared.borrow_mut().0.take() {", "this.shared.borrow_mut().0.as_ref().map(|e| e.unchecked_ref::<web_sys::Event>().clone().unchecked_into()) {")], F)
T("ends", [(H, "            Poll::Ready(Some(ev))\n        } else {\n            Poll::Pending\n", "            Poll::Ready(Some(ev))\n        } else {\n            Poll::Ready(None)\n")], F)
T("add-every-poll", [(H, "if this.closure.is_none() {", "if this.closure.is_none() || this.shared.borrow().0.is_none() {")], F)
T("options-swapped", [(H, "            .passive(passive);", "            .capture(passive);")], F)
T("options-reset", [(H, "            .get_or_insert_with(AddEventListenerOptions::new)\n            .passive(passive);", "            .insert(AddEventListenerOptions::new())\n            .passive(passive);")], F)
T("options-ignored", [(H, ADD, "            this.target.add_event_listener_with_callback(&this.event_name, listener).unwrap_throw();\n")], F)
T("once", [(H, "                        listener,\n                        options,\n", "                        listener,\n                        options.clone().once(true),\n")], F)
T("capture-not-removed", [(H, "                .remove_event_listener_with_callback_and_bool(\n", "                .remove_event_listener_with_callback(\n"), (H, "                    self.capture,\n", "")], F)
T("capture-from-passive", [(H, "    pub fn set_passive(&mut self, passive: bool) {\n", "    pub fn set_passive(&mut self, passive: bool) {\n        self.capture = false;\n")], F)
T("no-remove", [(H, REM, "        drop(self.closure.take());\n")], F)
T("remove-if-heard", [(H, "        if let Some(callback) = self.closure.take() {\n            self.target", "        if let Some(callback) = self.closure.take().filter(|_| self.shared.borrow().0.is_none()) {\n            self.target")], F)
T("wake-other-way", [(H, "                    inner.0 = Some(ev.unchecked_into());\n                    inner.1.wake_by_ref();\n", """                    if inner.0.replace(ev.unchecked_into()).is_some() {
                        inner.1.wake_by_ref();
                    }
""")], F)
T("run-only-when-new", [(H, CB, """                if let Some(strong) = shared_weak.upgrade() {
                    let fresh = strong.borrow().0.is_some();
                    strong.borrow_mut().0 = Some(ev.unchecked_into());
                    strong.borrow().1.wake_by_ref();
                    if fresh {
                        return;
                    }
                }
                async_ui_web_core::executor::run_now();
""")], Q)
T("swallowed", [(H, "    inner.0 = Some(ev.unchecked_into());\n", "    inner.0 = inner.0.take().xor(Some(ev.unchecked_into()));\n")], F)
