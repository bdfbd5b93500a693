id="x01-silent-on-panic"; prop="X01"
needs="A panic while a mutable guard is held, caught further up."
breaks="The mutable access ends without an announcement when it ends by unwinding."
edits=[("x-bow/src/borrow_mut_guard.rs","""        notify(self.store, self.path);
    }""","""        // avoid waking tasks while unwinding
        if !std::thread::panicking() {
            notify(self.store, self.path);
        }
    }""")]
demo=("native", r'''
use std::{pin::Pin, sync::Arc, task::{Context, Wake, Waker}};
use futures_core::Stream;
use x_bow::{PathExt, PathExtGuaranteed, Store};
struct N; impl Wake for N { fn wake(self: Arc<Self>) {} }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let store = Store::new(1u32);
    let path = store.build_path();
    let w = Waker::from(Arc::new(N));
    let mut cx = Context::from_waker(&w);
    let mut s = path.until_change();
    assert!(Pin::new(&mut s).poll_next(&mut cx).is_pending());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut g = path.borrow_mut();
        *g = 2;
        panic!("half way");
    }));
    assert!(r.is_err());
    assert_eq!(path.get(), 2);
    assert!(Pin::new(&mut s).poll_next(&mut cx).is_ready());
}
''')
