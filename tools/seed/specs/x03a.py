id="x03-index-truncated"; prop="X03"
needs="A vector with more than 256 items."
breaks="The identity of an item keeps only the low byte of its index, so items 256 apart share subscribers."
edits=[("x-bow/src/impls/stdlib/vec.rs","visitor.write_usize(self.index);","visitor.write_u8(self.index as u8);")]
demo=("native", r'''
use std::{pin::Pin, sync::Arc, task::{Context, Wake, Waker}};
use futures_core::Stream;
#[allow(unused_imports)] use x_bow::{Store, PathExtGuaranteed, PathExt};
struct N; impl Wake for N { fn wake(self: Arc<Self>) {} }
fn main() {
    let store = Store::new(vec![0u32; 300]);
    let w = Waker::from(Arc::new(N));
    let mut cx = Context::from_waker(&w);
    let p = store.build_path().index(1);
    let mut s = p.until_change();
    assert!(Pin::new(&mut s).poll_next(&mut cx).is_pending());
    *store.build_path().index(257).borrow_opt_mut().unwrap() = 2;
    assert!(Pin::new(&mut s).poll_next(&mut cx).is_pending(), "another item changed");
}
''')
