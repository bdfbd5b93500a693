id="x06-async-keeps-first"; prop="X06"
needs="A change while the previous callback's future is still running."
breaks="for_each_async ignores a change while the current future is pending."
edits=[("x-bow/src/path_ext/for_each_async.rs","""        if first | Pin::new(this.until_change).poll_next(cx).is_ready() {
            if""","""        let changed = Pin::new(this.until_change).poll_next(cx).is_ready();
        if first || (changed && this.future.is_none()) {
            if""")]
demo=("native", r'''
use std::{cell::RefCell, pin::pin, future::Future, task::{Context, Poll, Wake, Waker}, sync::Arc};
#[allow(unused_imports)] use x_bow::{Store, PathExtGuaranteed, PathExt};
struct N; impl Wake for N { fn wake(self: Arc<Self>) {} }
fn main() {
    let store = Store::new(1u32);
    let path = store.build_path();
    let log = RefCell::new(Vec::new());
    let w = Waker::from(Arc::new(N));
    let mut cx = Context::from_waker(&w);
    let mut f = pin!(path.for_each_async(|v| { let v = *v; let log = &log; async move { log.borrow_mut().push(v); std::future::pending::<()>().await } }));
    assert_eq!(f.as_mut().poll(&mut cx), Poll::Pending);
    path.set(2);
    assert_eq!(f.as_mut().poll(&mut cx), Poll::Pending);
    assert_eq!(*log.borrow(), [1, 2]);
}
''')
