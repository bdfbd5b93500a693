#![allow(unused)]
mod lists;
use lists::*;
use async_ui_web_core::{combinators::*, ContainerNodeFuture};
use std::{cell::{Cell, RefCell}, future::{pending, poll_fn, Future}, pin::Pin, rc::Rc, sync::{Arc, atomic::{AtomicUsize, Ordering}}, task::{Context, Poll, Wake, Waker}};
use web_sys::Node;
#[derive(Default)]
struct Count(AtomicUsize);
impl Wake for Count { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
type Fut = Pin<Box<dyn Future<Output = ()>>>;
/// a future that shows one node with this name
fn show(name: &str) -> Fut { Box::pin(ContainerNodeFuture::new(pending(), Node::fake(name))) }
/// what is visible in a node
fn seen(node: &Node) -> String { node.names().into_iter().filter(|n| n != "#comment").collect::<Vec<_>>().join(" ") }
fn tick<F: Future>(f: &mut Pin<Box<F>>) -> Poll<F::Output> {
    let w = Waker::from(Arc::new(Count::default()));
    let mut out = Poll::Pending;
    for _ in 0..5 { out = f.as_mut().poll(&mut Context::from_waker(&w)); if out.is_ready() { break } }
    out
}
