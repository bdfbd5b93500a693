#![allow(unused)]
mod dynamic_slot;
use dynamic_slot::DynamicSlot;
use std::{cell::{Cell, RefCell}, future::{poll_fn, Future}, pin::Pin, rc::Rc, sync::{atomic::{AtomicUsize, Ordering}, Arc}, task::{Context, Poll, Wake, Waker}};
struct Task(AtomicUsize);
impl Wake for Task { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn task() -> Arc<Task> { Arc::new(Task(AtomicUsize::new(0))) }
fn woken(t: &Arc<Task>) -> usize { t.0.load(Ordering::SeqCst) }
type Fut = Pin<Box<dyn Future<Output = ()>>>;
/// a future that counts its polls and never ends
fn shows(n: &Rc<Cell<usize>>) -> Fut { let n = n.clone(); Box::pin(poll_fn(move |_| { n.set(n.get() + 1); Poll::Pending })) }
fn poll(f: &mut Pin<Box<impl Future<Output = ()> + ?Sized>>, t: &Arc<Task>) { assert!(f.as_mut().poll(&mut Context::from_waker(&Waker::from(t.clone()))).is_pending()) }
