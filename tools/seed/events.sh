#!/bin/bash
# builds main.rs beside this file with the event streams of the current directory against stand-in event targets, and runs it
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS
W=$(mktemp -d /tmp/vp-demo.XXXXXX)
mkdir -p "$W/web/src" "$W/bindgen/src" "$W/core/src" "$W/src"
cp "$REPO/async_ui_web_html/src/event_handling.rs" "$W/src/event_handling.rs"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
futures-lite = "1.13.0"
futures-core = "0.3.28"
async_ui_internal_utils = { path = "$REPO/async_ui_internal_utils" }
async_ui_web_core = { package = "fake-core", path = "core" }
wasm-bindgen = { package = "fake-bindgen", path = "bindgen" }
web-sys = { package = "fake-web", path = "web" }
T
for c in web core bindgen; do
printf '[package]\nname = "fake-%s"\nversion = "0.3.0"\nedition = "2021"\n[dependencies]\n' $c > "$W/$c/Cargo.toml"
done
echo 'wasm-bindgen = { package = "fake-bindgen", path = "../bindgen" }' >> "$W/web/Cargo.toml"
cat > "$W/core/src/lib.rs" <<'T'
pub mod executor {
    thread_local! { static APP: std::cell::RefCell<Option<std::rc::Rc<dyn Fn()>>> = Default::default(); }
    pub fn set_app(f: impl Fn() + 'static) { APP.with(|a| *a.borrow_mut() = Some(std::rc::Rc::new(f))) }
    pub fn run_now() { let a = APP.with(|a| a.borrow().clone()); if let Some(a) = a { a() } }
}
T
cat > "$W/bindgen/src/lib.rs" <<'T'
//! Stand-in for wasm-bindgen: closures the browser can call until they are dropped.
use std::{any::Any, cell::RefCell, marker::PhantomData, rc::Rc};
type Body = Rc<dyn Fn(Box<dyn Any>)>;
#[derive(Clone)]
pub struct JsValue(Rc<RefCell<Option<Body>>>);
impl JsValue {
    pub fn call(&self, a: Box<dyn Any>) { let f = self.0.borrow().clone().expect("closure invoked after being dropped"); f(a) }
    pub fn same(&self, o: &JsValue) -> bool { Rc::ptr_eq(&self.0, &o.0) }
}
impl std::fmt::Debug for JsValue { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JsValue") } }
impl AsRef<JsValue> for JsValue { fn as_ref(&self) -> &JsValue { self } }
impl JsCast for JsValue {}
pub trait JsCast: Sized + 'static {
    fn unchecked_into<T: JsCast>(self) -> T { *(Box::new(self) as Box<dyn Any>).downcast::<T>().unwrap() }
    fn unchecked_ref<T: JsCast>(&self) -> &T { (self as &dyn Any).downcast_ref::<T>().unwrap() }
}
pub trait UnwrapThrowExt<T>: Sized { fn unwrap_throw(self) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } }
pub mod closure { pub use super::prelude::Closure; }
pub mod prelude {
    use super::*;
    pub use super::{JsValue, JsCast, UnwrapThrowExt};
    pub struct Closure<T: ?Sized>(JsValue, PhantomData<Box<T>>);
    pub trait Callable<F> { fn body(f: F) -> Body; }
    impl<A: 'static, F: Fn(A) + 'static> Callable<F> for dyn Fn(A) {
        fn body(f: F) -> Body { Rc::new(move |a: Box<dyn Any>| f(*a.downcast::<A>().unwrap())) }
    }
    impl<A: 'static, F: FnMut(A) + 'static> Callable<F> for dyn FnMut(A) {
        fn body(f: F) -> Body { let f = RefCell::new(f); Rc::new(move |a: Box<dyn Any>| (f.borrow_mut())(*a.downcast::<A>().unwrap())) }
    }
    impl<T: ?Sized> Closure<T> {
        pub fn new<F>(f: F) -> Self where T: Callable<F> { Closure(JsValue(Rc::new(RefCell::new(Some(T::body(f))))), PhantomData) }
    }
    impl<T: ?Sized> Closure<T> { pub fn forget(self) { std::mem::forget(self) } }
    impl<T: ?Sized> AsRef<JsValue> for Closure<T> { fn as_ref(&self) -> &JsValue { &self.0 } }
    impl<T: ?Sized> Drop for Closure<T> { fn drop(&mut self) { self.0.0.borrow_mut().take(); } }
}
T
cat > "$W/web/src/lib.rs" <<'T'
//! Stand-in for web-sys: event targets, as the DOM standard describes them.
use std::{any::Any, cell::{Cell, RefCell}, rc::Rc};
pub use wasm_bindgen::{JsCast, JsValue};
pub type Function = JsValue;
#[derive(Clone, Debug, PartialEq)]
pub struct Event(pub u32, pub Rc<Cell<bool>>);
impl Event { pub fn new(n: u32) -> Self { Event(n, Default::default()) } pub fn prevent_default(&self) { self.1.set(true) } }
impl JsCast for Event {}
impl AsRef<Event> for Event { fn as_ref(&self) -> &Event { self } }
#[derive(Clone, Default)]
pub struct AddEventListenerOptions(Rc<(Cell<bool>, Cell<bool>, Cell<bool>)>);
impl AddEventListenerOptions {
    pub fn new() -> Self { Self::default() }
    pub fn capture(&mut self, b: bool) -> &mut Self { self.0.0.set(b); self }
    pub fn set_capture(&self, b: bool) { self.0.0.set(b) }
    pub fn get_capture(&self) -> Option<bool> { Some(self.0.0.get()) }
    pub fn passive(&mut self, b: bool) -> &mut Self { self.0.1.set(b); self }
    pub fn set_passive(&self, b: bool) { self.0.1.set(b) }
    pub fn get_passive(&self) -> Option<bool> { Some(self.0.1.get()) }
    pub fn once(&mut self, b: bool) -> &mut Self { self.0.2.set(b); self }
    pub fn set_once(&self, b: bool) { self.0.2.set(b) }
}
#[derive(Clone)]
pub struct Listener { name: String, f: Function, pub capture: bool, pub passive: bool, once: bool }
#[derive(Clone, Default)]
pub struct EventTarget(pub Rc<RefCell<Vec<Listener>>>);
impl JsCast for EventTarget {}
impl AsRef<EventTarget> for EventTarget { fn as_ref(&self) -> &EventTarget { self } }
impl PartialEq for EventTarget { fn eq(&self, o: &Self) -> bool { Rc::ptr_eq(&self.0, &o.0) } }
impl EventTarget {
    pub fn new() -> Result<Self, JsValue> { Ok(Self::default()) }
    fn add(&self, name: &str, f: &Function, capture: bool, passive: bool, once: bool) -> Result<(), JsValue> {
        if !self.0.borrow().iter().any(|l| l.name == name && l.f.same(f) && l.capture == capture) {
            self.0.borrow_mut().push(Listener { name: name.to_string(), f: f.clone(), capture, passive, once });
        }
        Ok(())
    }
    pub fn add_event_listener_with_callback(&self, n: &str, f: &Function) -> Result<(), JsValue> { self.add(n, f, false, false, false) }
    pub fn add_event_listener_with_callback_and_bool(&self, n: &str, f: &Function, c: bool) -> Result<(), JsValue> { self.add(n, f, c, false, false) }
    pub fn add_event_listener_with_callback_and_add_event_listener_options(&self, n: &str, f: &Function, o: &AddEventListenerOptions) -> Result<(), JsValue> {
        self.add(n, f, o.0.0.get(), o.0.1.get(), o.0.2.get())
    }
    pub fn remove_event_listener_with_callback(&self, n: &str, f: &Function) -> Result<(), JsValue> { self.remove_event_listener_with_callback_and_bool(n, f, false) }
    pub fn remove_event_listener_with_callback_and_bool(&self, n: &str, f: &Function, c: bool) -> Result<(), JsValue> {
        self.0.borrow_mut().retain(|l| !(l.name == n && l.f.same(f) && l.capture == c));
        Ok(())
    }
    pub fn listeners(&self) -> usize { self.0.borrow().len() }
    pub fn fire(&self, name: &str, e: &Event) {
        let ls: Vec<Listener> = self.0.borrow().iter().filter(|l| l.name == name).cloned().collect();
        for l in ls {
            if !self.0.borrow().iter().any(|x| x.f.same(&l.f) && x.capture == l.capture) { continue }
            if l.once { self.0.borrow_mut().retain(|x| !(x.f.same(&l.f) && x.capture == l.capture)) }
            l.f.call(Box::new(e.clone()) as Box<dyn Any>);
        }
    }
}
T
cd "$W" && cargo run -q --offline --target x86_64-unknown-linux-gnu
rc=$?
cd /tmp
[ -n "$W" ] && find "$W" -delete
exit $rc
