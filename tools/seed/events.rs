#![allow(unused)]
mod event_handling;
use event_handling::*;
use std::{cell::{Cell, RefCell}, future::Future, pin::Pin, rc::Rc, sync::{atomic::{AtomicUsize, Ordering}, Arc}, task::{Context, Poll, Wake, Waker}};
use futures_core::Stream;
use web_sys::{Event, EventTarget};
type Events = EventFutureStream<Event>;
struct Task(AtomicUsize);
impl Wake for Task { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn task() -> Arc<Task> { Arc::new(Task(AtomicUsize::new(0))) }
fn woken(t: &Arc<Task>) -> usize { t.0.load(Ordering::SeqCst) }
fn poll(s: &mut Events, t: &Arc<Task>) -> Poll<Option<u32>> {
    Pin::new(s).poll_next(&mut Context::from_waker(&Waker::from(t.clone()))).map(|e| e.map(|e| e.0))
}
