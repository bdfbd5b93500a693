id='c02-early-return-frees-items'; prop='C02'
needs="A try_join or race_ok over a vector ending early after another child's output was stored."
breaks='The stored outputs of the other children are never dropped.'
edits=[('async_ui_web_core/src/combinators/common/vec.rs', '                    ControlFlow::Break(ret) => {\n                        return Poll::Ready(ret);', '                    ControlFlow::Break(ret) => {\n                        // free the memory right away\n                        *this.items = Vec::new();\n                        return Poll::Ready(ret);')]
demo=('core', r'''
#[test]
fn demo() { null(|| {
    let kept = Rc::new(());
    let k = kept.clone();
    let mut slot = Some(k);
    let mut f = Box::pin(try_join((0..2).map(|i| { let v = slot.take(); async move { match v { Some(v) => Ok(v), None => Err(i) } } }).collect::<Vec<_>>()));
    let w = Arc::new(Count::default());
    assert!(matches!(f.as_mut().poll(&mut Context::from_waker(&w.into())), Poll::Ready(Err(1))));
    drop(f);
    assert_eq!(Rc::strong_count(&kept), 1);
}) }
''')
