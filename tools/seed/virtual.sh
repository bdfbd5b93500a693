#!/bin/bash
# builds main.rs beside this file with the VirtualizedList of the current directory against stand-ins for the page (a column of items of one
# height between two spacers, scrolled inside a root) and for the list of items it fills, and runs it
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS
W=$(mktemp -d /tmp/vp-demo.XXXXXX)
mkdir -p "$W/src/lists" "$W/page/src" "$W/core/src" "$W/bindgen/src" "$W/js/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$REPO/async_ui_web/src/lists/virtualized_list.rs" "$W/src/lists/virtualized_list.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
async_ui_internal_utils = { path = "$REPO/async_ui_internal_utils" }
async_ui_web_core = { package = "fake-core", path = "core" }
futures-lite = "1.13.0"
scopeguard = "1.1.0"
wasm-bindgen = { package = "fake-bindgen", path = "bindgen" }
js-sys = { package = "fake-js", path = "js" }
web-sys = { package = "fake-web", path = "page" }
T
for p in core:fake-core bindgen:fake-bindgen js:fake-js page:fake-web; do
cat > "$W/${p%%:*}/Cargo.toml" <<T
[package]
name = "${p#*:}"
version = "0.0.0"
edition = "2021"
[dependencies]
T
done
echo 'web-sys = { package = "fake-web", path = "../page" }' >> "$W/core/Cargo.toml"
echo 'js-sys = { package = "fake-js", path = "../js" }' >> "$W/page/Cargo.toml"
cat > "$W/bindgen/src/lib.rs" <<'T'
#[derive(Clone, Debug, Default)]
pub struct JsValue;
pub trait UnwrapThrowExt<T> { fn unwrap_throw(self) -> T; }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } }
pub trait JsCast { fn unchecked_ref<T: Default>(&self) -> &T { Box::leak(Box::default()) } }
impl JsCast for JsValue {}
pub mod prelude {
    pub use super::{JsCast, JsValue, UnwrapThrowExt};
    pub struct Closure<T: ?Sized>(JsValue, std::marker::PhantomData<T>);
    thread_local!(pub static WAKES: std::cell::RefCell<Vec<Box<dyn Fn(JsValue)>>> = Default::default());
    impl Closure<dyn Fn(JsValue)> {
        pub fn new(f: impl Fn(JsValue) + 'static) -> Self { WAKES.with(|w| w.borrow_mut().push(Box::new(f))); Closure(JsValue, std::marker::PhantomData) }
    }
    impl<T: ?Sized> AsRef<JsValue> for Closure<T> { fn as_ref(&self) -> &JsValue { &self.0 } }
}
pub mod closure { pub use super::prelude::Closure; }
T
cat > "$W/js/src/lib.rs" <<'T'
#[derive(Clone, Debug, Default)]
pub struct Function;
T
cat > "$W/core/src/lib.rs" <<'T'
use std::{future::Future, pin::Pin, task::{Context, Poll}};
pub mod executor { pub fn run_now() {} }
pub struct ContainerNodeFuture<F>(F);
impl<F: Future> ContainerNodeFuture<F> { pub fn new(f: F, _: web_sys::Node) -> Self { Self(f) } }
impl<F: Future> Future for ContainerNodeFuture<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> { unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx) }
}
pub mod combinators {
    use super::*;
    pub async fn join<A: Future, B: Future, C: Future, D: Future>(f: (A, B, C, D)) {
        let (mut a, mut b, mut c, mut d) = (Box::pin(f.0), Box::pin(f.1), Box::pin(f.2), Box::pin(f.3));
        std::future::poll_fn(move |cx| { let _ = (a.as_mut().poll(cx).is_ready(), b.as_mut().poll(cx).is_ready(), c.as_mut().poll(cx).is_ready(), d.as_mut().poll(cx).is_ready()); Poll::<()>::Pending }).await
    }
}
T
cat > "$W/page/src/lib.rs" <<'T'
use std::{cell::RefCell, ops::Deref};
pub struct Layout { pub scroll: f64, pub height: f64, pub item: f64, pub shown: usize, pub front: f64, pub back: f64 }
thread_local!(pub static PAGE: RefCell<Layout> = const { RefCell::new(Layout { scroll: 0.0, height: 100.0, item: 10.0, shown: 0, front: 0.0, back: 0.0 }) });
#[derive(Clone, Default)] pub struct Node;
#[derive(Clone, Default)] pub struct Element(pub u8);
#[derive(Clone, Default)] pub struct HtmlElement(pub Element);
impl Deref for HtmlElement { type Target = Element; fn deref(&self) -> &Element { &self.0 } }
impl From<HtmlElement> for Node { fn from(_: HtmlElement) -> Node { Node } }
pub struct DomRect(f64, f64);
impl DomRect { pub fn top(&self) -> f64 { self.0 } pub fn bottom(&self) -> f64 { self.1 } pub fn left(&self) -> f64 { self.0 } pub fn right(&self) -> f64 { self.1 }
  pub fn height(&self) -> f64 { self.1 - self.0 } pub fn width(&self) -> f64 { self.1 - self.0 } }
impl Element {
    pub fn get_bounding_client_rect(&self) -> DomRect {
        PAGE.with(|p| { let p = p.borrow(); let items = p.shown as f64 * p.item;
            match self.0 { 0 => DomRect(0.0, p.height), 1 => DomRect(-p.scroll, p.front - p.scroll), _ => DomRect(p.front + items - p.scroll, p.front + items + p.back - p.scroll) } })
    }
    pub fn add_event_listener_with_callback(&self, _: &str, _: &js_sys::Function) -> Result<(), ()> { Ok(()) }
    pub fn remove_event_listener_with_callback(&self, _: &str, _: &js_sys::Function) -> Result<(), ()> { Ok(()) }
}
pub struct Style(u8);
impl HtmlElement { pub fn style(&self) -> Style { Style(self.0.0) } }
impl Style { pub fn set_property(&self, _: &str, v: &str) -> Result<(), ()> {
    let v: f64 = v.trim_end_matches("px").parse().unwrap();
    PAGE.with(|p| if self.0 == 1 { p.borrow_mut().front = v } else { p.borrow_mut().back = v }); Ok(()) } }
#[derive(Default)] pub struct IntersectionObserverInit;
impl IntersectionObserverInit { pub fn new() -> Self { Self } pub fn root(&mut self, _: Option<&Element>) -> &mut Self { self } pub fn root_margin(&mut self, _: &str) -> &mut Self { self } }
pub struct IntersectionObserver;
impl IntersectionObserver { pub fn new_with_options(_: &js_sys::Function, _: &IntersectionObserverInit) -> Result<Self, ()> { Ok(Self) } pub fn observe(&self, _: &Element) {} pub fn disconnect(&self) {} }
T
cd "$W" && cargo run -q --offline --target x86_64-unknown-linux-gnu
rc=$?
cd /tmp
[ -n "$W" ] && find "$W" -delete
exit $rc
