id="r01-unchanged-guard"; prop="R01"
needs="Content with interior mutability (Cell, RefCell) written through a mutable guard that is only used by shared deref."
breaks="A guard that was never dereferenced mutably tells nobody when it is released, although the content can have been changed through it."
edits=[("async_ui_internal_utils/src/reactive_cell/borrow_mut.rs","""    pub(super) reference: RefMut<'b, Inner<T>>,
}""","""    pub(super) reference: RefMut<'b, Inner<T>>,
    pub(super) touched: bool,
}"""),("async_ui_internal_utils/src/reactive_cell/borrow_mut.rs","""        &mut self.reference.data
""","""        self.touched = true;
        &mut self.reference.data
"""),("async_ui_internal_utils/src/reactive_cell/borrow_mut.rs","""        self.reference.version += 1;
""","""        if !self.touched {
            return;
        }
        self.reference.version += 1;
"""),("async_ui_internal_utils/src/reactive_cell/mod.rs","""            reference: self.inner.borrow_mut(),
""","""            reference: self.inner.borrow_mut(),
            touched: false,
"""),("async_ui_internal_utils/src/reactive_cell/mod.rs","""            reference: self.inner.try_borrow_mut()?,
""","""            reference: self.inner.try_borrow_mut()?,
            touched: false,
""")]
demo=("native", r'''
use std::{cell::Cell, future::Future, pin::pin, sync::Arc, task::{Context, Wake, Waker}};
use async_ui_internal_utils::reactive_cell::ReactiveCell;
struct N; impl Wake for N { fn wake(self: Arc<Self>) {} }
fn main() {
    let cell = ReactiveCell::new(Cell::new(1u32));
    let w = Waker::from(Arc::new(N));
    let mut cx = Context::from_waker(&w);
    let mut s = pin!(cell.until_change());
    assert!(s.as_mut().poll(&mut cx).is_pending());
    cell.borrow_mut().set(2);
    assert!(s.as_mut().poll(&mut cx).is_ready(), "after each time the cell is mutably borrowed, the stream fires");
}
''')
