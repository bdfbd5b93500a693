id='c04-position-in-wake-order'; prop='C04'
needs='Children of a tuple join that first render at a later poll, in another order than their positions.'
breaks='A child is placed in the document by the order in which children were woken.'
edits=[('async_ui_web_core/src/combinators/common/tuple.rs', 'for &index in this.awake_list_buffer.iter().take(num_awake) {', 'for (turn, &index) in this.awake_list_buffer.iter().take(num_awake).enumerate() {'), ('async_ui_web_core/src/combinators/common/tuple.rs', 'index: $idx as _,', 'index: turn as _,')]
demo=('core', r'''
use web_sys::Node;
#[test]
fn demo() {
    let root = Node::fake("root");
    let ws: Rc<RefCell<Vec<Option<Waker>>>> = Rc::new(RefCell::new(vec![None; 3]));
    let child = |i: usize, s: &'static str| {
        let ws = ws.clone();
        async move {
            let mut first = true;
            poll_fn(|cx| { ws.borrow_mut()[i] = Some(cx.waker().clone()); if std::mem::take(&mut first) { Poll::Pending } else { Poll::Ready(()) } }).await;
            ContainerNodeFuture::new(std::future::pending::<()>(), Node::fake(s)).await
        }
    };
    let mut f = Box::pin(ContainerNodeFuture::new_root(join((child(0, "a"), child(1, "b"), child(2, "c"))), root.clone()));
    let w = Arc::new(Count::default());
    let mut go = || { assert!(f.as_mut().poll(&mut Context::from_waker(&w.clone().into())).is_pending()) };
    go();
    for i in [2, 0, 1] { let x = ws.borrow()[i].clone().unwrap(); x.wake(); }
    go();
    assert_eq!(root.names(), ["a", "b", "c"]);
    let _ = go;
    std::mem::forget(f);
}
''')
