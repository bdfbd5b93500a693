X = "async_ui_web_core/src/executor.rs"
W, M = "async_ui_web/src/executor.rs", "async_ui_web/src/mount.rs"
Q, FI = {"C08": "quiet"}, {"C08": "fire"}
RUN = """        let was_active = exe.active.replace(true);
        if !was_active {
            while exe.scheduled.replace(false) {
                let mut cx = Context::from_waker(&exe.waker);
                if let Some(fu) = exe.future.borrow_mut().as_mut() {
                    let _ = fu.as_mut().poll(&mut cx);
                }
            }
            exe.active.set(false);
        }
"""
SCHED = """        if !exe.scheduled.replace(true) && !exe.active.get() {
            WINDOW.with(|window| {
                window
                    .set_timeout_with_callback(exe.run_closure.as_ref().unchecked_ref())
                    .expect_throw("failed to schedule task");
            })
        }
"""
T("run-early-return", [(X, RUN, """        if exe.active.get() {
            return;
        }
        exe.active.set(true);
        loop {
            if !exe.scheduled.get() {
                break;
            }
            exe.scheduled.set(false);
            let mut cx = Context::from_waker(&exe.waker);
            let mut future = exe.future.borrow_mut();
            if let Some(fu) = &mut *future {
                let _ = fu.as_mut().poll(&mut cx);
            }
        }
        exe.active.set(false);
""")], Q)
T("run-helper", [(X, RUN, """        if !exe.active.replace(true) {
            while exe.scheduled.take() {
                exe.poll_once();
            }
            exe.active.set(false);
        }
"""), (X, "/// Set the root future to execute.", """impl ExecutorSingleton {
    fn poll_once(&self) {
        let mut cx = Context::from_waker(&self.waker);
        if let Some(fu) = self.future.borrow_mut().as_mut() {
            let _ = fu.as_mut().poll(&mut cx);
        }
    }
}

/// Set the root future to execute.""")], Q)
T("run-do-while", [(X, RUN, """        if exe.active.replace(true) {
            return;
        }
        while exe.scheduled.get() {
            exe.scheduled.set(false);
            if let Some(fu) = exe.future.borrow_mut().as_mut() {
                let mut cx = Context::from_waker(&exe.waker);
                let _ = fu.as_mut().poll(&mut cx);
            }
        }
        exe.active.set(false);
""")], Q)
T("sched-swapped", [(X, SCHED, """        let already = exe.scheduled.get();
        exe.scheduled.set(true);
        if already || exe.active.get() {
            return;
        }
        let callback = exe.run_closure.as_ref().unchecked_ref();
        WINDOW.with(|window| window.set_timeout_with_callback(callback)).expect_throw("failed to schedule task");
""")], Q)
T("sched-microtask", [(X, ".set_timeout_with_callback(exe.run_closure.as_ref().unchecked_ref())", ".set_timeout_with_callback_and_timeout_and_arguments_0(exe.run_closure.as_ref().unchecked_ref(), 0)")], Q)
T("sched-active-first", [(X, "if !exe.scheduled.replace(true) && !exe.active.get() {", "let idle = !exe.active.get();\n        let first = !exe.scheduled.replace(true);\n        if first & idle {")], Q)
STATE = [(X, "    scheduled: Cell<bool>,\n    active: Cell<bool>,\n", "    state: Cell<State>,\n"),
         (X, "            scheduled: Cell::new(false),\n            active: Cell::new(false),\n", "            state: Cell::new(State::Idle),\n"),
         (X, "struct ExecutorSingleton {", "#[derive(Clone, Copy, PartialEq)]\nenum State {\n    Idle,\n    Queued,\n    Running,\n    Woken,\n}\nstruct ExecutorSingleton {"),
         (X, RUN, """        match exe.state.get() {
            State::Queued => {}
            _ => return,
        }
        loop {
            exe.state.set(State::Running);
            let mut cx = Context::from_waker(&exe.waker);
            if let Some(fu) = exe.future.borrow_mut().as_mut() {
                let _ = fu.as_mut().poll(&mut cx);
            }
            if let State::Running = exe.state.get() {
                break;
            }
        }
        exe.state.set(State::Idle);
"""), (X, SCHED, """        match exe.state.get() {
            State::Idle => {
                exe.state.set(State::Queued);
                WINDOW.with(|window| {
                    window
                        .set_timeout_with_callback(exe.run_closure.as_ref().unchecked_ref())
                        .expect_throw("failed to schedule task");
                })
            }
            State::Running => exe.state.set(State::Woken),
            State::Queued | State::Woken => {}
        }
""")]
T("state-enum", STATE, Q)
T("state-enum-lost", STATE + [(X, "            State::Running => exe.state.set(State::Woken),\n            State::Queued | State::Woken => {}\n", "            _ => {}\n")], FI)
T("state-enum-eq", [(a, b, c.replace("if let State::Running = exe.state.get() {", "if exe.state.get() == State::Running {")) for a, b, c in STATE], Q)
T("closure-literal", [(X, "run_closure: Closure::new(run_now),", "run_closure: Closure::new(|| run_now()),")], Q)
T("waker-static", [(X, """    fn new_raw_waker() -> RawWaker {
        RawWaker::new(
            core::ptr::null::<()>(),
            &RawWakerVTable::new(|_| new_raw_waker(), |_| schedule(), |_| schedule(), |_| {}),
        )
    }
    unsafe { Waker::from_raw(new_raw_waker()) }
""", """    static VTABLE: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, noop);
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(core::ptr::null(), &VTABLE)
    }
    fn wake(_: *const ()) {
        schedule()
    }
    fn noop(_: *const ()) {}
    unsafe { Waker::from_raw(clone(core::ptr::null())) }
""")], Q)
T("setter-replace", [(X, "EXECUTOR.with(|exe| *exe.future.borrow_mut() = Some(future.into()))", "EXECUTOR.with(|exe| {\n        exe.future.replace(Some(Box::into_pin(future)));\n    })")], Q)
T("getter-plain", [(W, """        *cell.get_or_init(|| {
            let exe = Box::leak(Box::new(LocalExecutor::new()));
            set_executor_future(Box::new(exe.run(pending())));
            exe
        })
""", """        let create = || {
            let exe: &'static LocalExecutor<'static> = Box::leak(Box::default());
            let root = exe.run(pending::<()>());
            set_executor_future(Box::new(root));
            exe
        };
        let exe: &'static LocalExecutor<'static> = cell.get_or_init(create);
        exe
""")], Q)
T("mount-order", [(M, """    let task = get_executor().spawn(fut);
    schedule();
    task
""", """    let exe = get_executor();
    schedule();
    exe.spawn(fut)
""")], Q)
T("mount-split", [(M, """    mount_at(
        child_future,
        DOCUMENT.with(|doc| doc.body().unwrap_throw().into()),
    )
    .detach();
""", """    let body = DOCUMENT.with(|doc| doc.body()).unwrap_throw();
    let task = mount_at(child_future, body.into());
    task.detach()
""")], Q)
# ---- bugs
T("clear-after-poll", [(X, "            while exe.scheduled.replace(false) {\n", "            while exe.scheduled.get() {\n"), (X, "                    let _ = fu.as_mut().poll(&mut cx);\n                }\n", "                    let _ = fu.as_mut().poll(&mut cx);\n                }\n                exe.scheduled.set(false);\n")], FI)
T("if-not-while", [(X, "            while exe.scheduled.replace(false) {\n", "            if exe.scheduled.replace(false) {\n")], FI)
T("clear-at-end", [(X, "            exe.active.set(false);\n        }\n", "            exe.active.set(false);\n            exe.scheduled.set(false);\n        }\n")], Q)
T("inactive-before-loop", [(X, RUN, RUN.replace("            exe.active.set(false);\n", "").replace("            while exe", "            exe.active.set(false);\n            while exe"))], FI)
T("active-never-reset", [(X, "            exe.active.set(false);\n", "")], FI)
T("active-reset-outside", [(X, "            exe.active.set(false);\n        }\n", "        }\n        exe.active.set(false);\n")], FI)
T("sched-active-or", [(X, "if !exe.scheduled.replace(true) && !exe.active.get() {", "if !exe.active.get() && !exe.scheduled.replace(true) {")], FI)
T("sched-always-queue", [(X, "if !exe.scheduled.replace(true) && !exe.active.get() {", "exe.scheduled.set(true);\n        if !exe.active.get() {")], FI)
T("initially-scheduled", [(X, "scheduled: Cell::new(false),", "scheduled: Cell::new(true),")], FI)
T("initially-active", [(X, "active: Cell::new(false),", "active: Cell::new(true),")], FI)
T("wake-by-ref-noop", [(X, "|_| schedule(), |_| schedule(), |_| {})", "|_| schedule(), |_| {}, |_| {})")], FI)
T("wake-runs-now", [(X, "|_| schedule(), |_| schedule(), |_| {})", "|_| run_now(), |_| schedule(), |_| {})")], FI)
T("callback-schedules", [(X, "run_closure: Closure::new(run_now),", "run_closure: Closure::new(schedule),")], FI)
T("reentrant-swap", [(X, "let was_active = exe.active.replace(true);", "let was_active = exe.active.get();")], FI)
T("setter-first-only", [(X, "*exe.future.borrow_mut() = Some(future.into())", "{ exe.future.borrow_mut().get_or_insert(future.into()); }")], Q)
T("mount-no-schedule", [(M, "    schedule();\n", "")], FI)
T("mount-no-detach", [(M, "    mount_at(\n        child_future,\n        DOCUMENT.with(|doc| doc.body().unwrap_throw().into()),\n    )\n    .detach();", "    let _task = mount_at(\n        child_future,\n        DOCUMENT.with(|doc| doc.body().unwrap_throw().into()),\n    );")], FI)
T("getter-other-executor", [(W, "            set_executor_future(Box::new(exe.run(pending())));\n", "            let other: &'static LocalExecutor<'static> = Box::leak(Box::new(LocalExecutor::new()));\n            set_executor_future(Box::new(other.run(pending())));\n")], FI)
T("getter-not-set", [(W, "            set_executor_future(Box::new(exe.run(pending())));\n", "            let _: Box<dyn std::future::Future<Output = ()>> = Box::new(exe.run(pending()));\n            if false {\n                set_executor_future(Box::new(exe.run(pending())));\n            }\n")], FI)
