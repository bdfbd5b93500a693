id='c02-flags-kept-for-plain-futures'; prop='C02'
needs='A joined array whose futures need no drop but whose outputs do, finished and then dropped.'
breaks='The completion flags stay set after the outputs were handed out, so dropping the combinator drops slots it no longer owns.'
edits=[('async_ui_web_core/src/combinators/common/array.rs', '            this.filled.fill(false);\n', '            if core::mem::needs_drop::<Fut>() {\n                this.filled.fill(false);\n            }\n')]
demo=('core', r'''
#[derive(Debug)]
struct D;
thread_local!(static N: Cell<u32> = Cell::new(0));
impl Drop for D { fn drop(&mut self) { N.with(|n| n.set(n.get() + 1)); } }
#[test]
fn demo() { null(|| {
    fn go(_: &mut Context<'_>) -> Poll<D> { Poll::Ready(D) }
    let mut f = Box::pin(join([poll_fn(go as fn(&mut Context<'_>) -> Poll<D>), poll_fn(go)]));
    let w = Arc::new(Count::default());
    let Poll::Ready(out) = f.as_mut().poll(&mut Context::from_waker(&w.into())) else { panic!() };
    drop(f);
    drop(out);
    assert_eq!(N.with(|n| n.get()), 2);
}) }
''')
