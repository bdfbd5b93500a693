#![allow(unused)]
mod lists {
    mod virtualized_list;
    pub use virtualized_list::*;
    use std::cell::RefCell;
    thread_local!(pub static LOG: RefCell<Vec<usize>> = Default::default());
    /// stands for the list of items: what is shown, in order
    pub struct DynamicList<'c, K, F>(RefCell<Vec<(K, F)>>, std::marker::PhantomData<&'c ()>);
    impl<'c, F> DynamicList<'c, usize, F> {
        pub fn new() -> Self { Self(Default::default(), std::marker::PhantomData) }
        fn log(&self) {
            let v: Vec<usize> = self.0.borrow().iter().map(|i| i.0).collect();
            web_sys::PAGE.with(|p| p.borrow_mut().shown = v.len());
            LOG.with(|l| *l.borrow_mut() = v);
        }
        fn at(&self, b: Option<&usize>) -> usize { let s = self.0.borrow(); b.and_then(|b| s.iter().position(|i| i.0 == *b)).unwrap_or(s.len()) }
        pub fn contains_key(&self, k: &usize) -> bool { self.0.borrow().iter().any(|i| i.0 == *k) }
        pub fn insert(&self, k: usize, f: F, before: Option<&usize>) -> bool {
            let was = self.remove(&k);
            let i = self.at(before);
            self.0.borrow_mut().insert(i, (k, f));
            self.log();
            was
        }
        pub fn remove(&self, k: &usize) -> bool {
            let n = self.0.borrow().len();
            self.0.borrow_mut().retain(|i| i.0 != *k);
            self.log();
            n != self.0.borrow().len()
        }
        pub fn clear(&self) { self.0.borrow_mut().clear(); self.log() }
        pub async fn render(&self) { std::future::pending().await }
    }
}
use lists::*;
use std::{cell::{Cell, RefCell}, collections::HashMap, future::{pending, Future}, pin::Pin, rc::Rc, sync::Arc, task::{Context, Wake, Waker}};
use web_sys::*;
type Fut = Pin<Box<dyn Future<Output = ()>>>;
fn shown() -> Vec<usize> { LOG.with(|l| l.borrow().clone()) }
fn scroll_to(y: f64) { PAGE.with(|p| p.borrow_mut().scroll = y) }
fn resize(h: f64) { PAGE.with(|p| p.borrow_mut().height = h) }
fn el(n: u8) -> HtmlElement { HtmlElement(Element(n)) }
/// how often each item was rendered
type Count = Rc<RefCell<HashMap<usize, usize>>>;
fn renderer(c: &Count) -> impl FnMut(usize) -> Fut { let c = c.clone(); move |i| { *c.borrow_mut().entry(i).or_default() += 1; Box::pin(pending()) } }
/// the items shown are one range of the list's items, in order
fn good(n: usize) { let s = shown(); if let Some(a) = s.first() { assert_eq!(s, (*a..a + s.len()).collect::<Vec<_>>()); assert!(a + s.len() <= n, "{s:?}") } }
