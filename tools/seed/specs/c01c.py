id='c01-sparse-clear-keeps-flag'; prop='C01'
needs='A vector of over 64 children of which few are awake at a poll and one is woken again afterwards.'
breaks='The flag of one polled child stays set after a sparse clear, so its next wake-up is ignored.'
edits=[('async_ui_web_core/src/combinators/utils/wakers/vec/readiness.rs', '            self.awake_list.drain(..).for_each(|idx| {\n                awake_set.set(idx, false);\n            });', '            // the list is sorted by time, so only its span has to be reset\n            if let (Some(&first), Some(&last)) = (self.awake_list.first(), self.awake_list.last()) {\n                awake_set[first.min(last)..first.max(last)].fill(false);\n            }\n            self.awake_list.clear();')]
demo=('core', r'''
#[test]
fn demo() { null(|| {
    let ws: Rc<RefCell<Vec<Option<Waker>>>> = Rc::new(RefCell::new(vec![None; 200]));
    let polls: Rc<RefCell<Vec<u32>>> = Rc::new(RefCell::new(vec![0; 200]));
    let mut f = Box::pin(join((0..200).map(|i| { let (ws, polls) = (ws.clone(), polls.clone()); poll_fn(move |cx| {
        ws.borrow_mut()[i] = Some(cx.waker().clone()); polls.borrow_mut()[i] += 1; Poll::<()>::Pending }) }).collect::<Vec<_>>()));
    let w = Arc::new(Count::default());
    let mut go = || { assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending()) };
    go();
    for _ in 0..3 { let x = ws.borrow()[7].clone().unwrap(); x.wake(); go(); }
    assert_eq!(polls.borrow()[7], 4);
}) }
''')
