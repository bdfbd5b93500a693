id="c01-idle-poll-keeps-old-waker"; prop="C01"
needs="A joined vector polled again with a different waker while none of its children is awake; then a child wakes."
breaks="The wake-up goes to the waker of an earlier poll; the task now owning the future is never woken."
edits=[("async_ui_web_core/src/combinators/common/vec.rs","""            let mut readiness = this.wakers.readiness();
            readiness.set_parent_waker(cx.waker());
""","""            let mut readiness = this.wakers.readiness();
            if *this.pending > 0 && readiness.awake_list().is_empty() {
                // Spurious poll: no child has anything to do.
                return Poll::Pending;
            }
            readiness.set_parent_waker(cx.waker());
""")]
demo=("core", r'''
#[test]
fn demo() { null(|| {
    let kept: Rc<RefCell<Option<Waker>>> = Default::default();
    let k = kept.clone();
    let f = join(vec![poll_fn(move |cx| { *k.borrow_mut() = Some(cx.waker().clone()); Poll::<()>::Pending })]);
    let mut f = Box::pin(f);
    let (a, b) = (Arc::new(Count::default()), Arc::new(Count::default()));
    assert!(f.as_mut().poll(&mut Context::from_waker(&a.clone().into())).is_pending());
    assert!(f.as_mut().poll(&mut Context::from_waker(&b.clone().into())).is_pending());
    kept.borrow().as_ref().unwrap().wake_by_ref();
    assert_eq!(b.0.load(Ordering::SeqCst), 1);
}) }
''')
