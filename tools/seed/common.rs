use crate::{combinators::*, context::{DomContext, DOM_CONTEXT}, ContainerNodeFuture};
use std::{cell::{Cell, RefCell}, future::{poll_fn, Future}, pin::Pin, rc::Rc, sync::{Arc, atomic::{AtomicUsize, Ordering}}, task::{Context, Poll, Wake, Waker}};
#[derive(Default)]
struct Count(AtomicUsize);
impl Wake for Count { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn null<R>(f: impl FnOnce() -> R) -> R { DOM_CONTEXT.set(&DomContext::Null, f) }
