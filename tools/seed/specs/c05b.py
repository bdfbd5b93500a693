id='c05-clone-wakes-first-child'; prop='C05'
needs='A child other than the first that keeps a clone of its waker and is woken through it.'
breaks='The clone wakes the first child.'
edits=[('async_ui_web_core/src/combinators/utils/wakers/shared_arc.rs', '        RawWaker::new(pointer as *const (), create_vtable::<A>())\n    }\n\n    /// Invoke', '        // All slots of the slice are equal, so the clone can use the start of it.\n        let slot = unsafe { (**pointer).get_redirect_slice().as_ptr() };\n        RawWaker::new(slot as *const (), create_vtable::<A>())\n    }\n\n    /// Invoke')]
demo=('core', r'''
#[test]
fn demo() { null(|| {
    let kept: Rc<RefCell<Option<Waker>>> = Default::default();
    let n = Rc::new(Cell::new(0));
    let (k, m) = (kept.clone(), n.clone());
    let mut f = Box::pin(join((std::future::pending::<()>(), poll_fn(move |cx| { *k.borrow_mut() = Some(cx.waker().clone()); m.set(m.get() + 1); Poll::<()>::Pending }))));
    let w = Arc::new(Count::default());
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    kept.take().unwrap().wake();
    assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending());
    assert_eq!(n.get(), 2);
}) }
''')
