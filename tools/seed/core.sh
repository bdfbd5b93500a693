#!/bin/bash
# copies async_ui_web_core (and async_ui_internal_utils) from the current directory into a scratch crate, with demo.rs (beside this file as main.rs)
# as an extra test module and a stand-in web-sys whose nodes are plain Rust objects, and runs that test module
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS
W=$(mktemp -d /tmp/vp-demo.XXXXXX)
mkdir -p "$W/web/src" "$W/bindgen/src"
cp -r "$REPO/async_ui_web_core/src" "$W/src"
cp -r "$REPO/async_ui_internal_utils" "$W/utils"
cp "$HERE/main.rs" "$W/src/demo.rs"
printf '\n#[cfg(test)]\n#[allow(unused)]\nmod demo;\n' >> "$W/src/lib.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "async_ui_web_core"
version = "0.2.1"
edition = "2021"
[workspace]
[dependencies]
pin-project = "1.0"
scoped-tls-hkt = "0.1.2"
smallvec = { version = "1", features = ["union", "const_generics"] }
bitvec = { version = "1.0.1", default-features = false, features = ["alloc"] }
wasm-bindgen = { package = "fake-bindgen", path = "bindgen" }
async_ui_internal_utils = { path = "utils" }
web-sys = { package = "fake-web", path = "web" }
[dev-dependencies]
futures-lite = "1.13.0"
futures-core = "0.3.28"
T
cat > "$W/web/Cargo.toml" <<T
[package]
name = "fake-web"
version = "0.3.64"
edition = "2021"
[dependencies]
wasm-bindgen = { package = "fake-bindgen", path = "../bindgen" }
T
cat > "$W/bindgen/Cargo.toml" <<T
[package]
name = "fake-bindgen"
version = "0.2.87"
edition = "2021"
T
cat > "$W/bindgen/src/lib.rs" <<'T'
//! Stand-in for the parts of wasm-bindgen that async_ui_web_core uses.
#[derive(Debug, Clone, PartialEq)]
pub struct JsValue;
impl JsValue { pub const UNDEFINED: JsValue = JsValue; }
impl From<&str> for JsValue { fn from(_: &str) -> Self { JsValue } }
pub trait JsCast { fn unchecked_ref(&self) -> &JsValue { &JsValue } }
impl JsCast for JsValue {}
pub trait UnwrapThrowExt<T>: Sized { fn unwrap_throw(self) -> T; fn expect_throw(self, m: &str) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } fn expect_throw(self, m: &str) -> T { self.expect(m) } }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } fn expect_throw(self, m: &str) -> T { self.expect(m) } }
pub mod closure {
    pub struct Closure<T: ?Sized>(std::marker::PhantomData<T>);
    impl<T: ?Sized> Closure<T> { pub fn new<F>(_: F) -> Self { Closure(std::marker::PhantomData) } }
    impl<T: ?Sized> AsRef<crate::JsValue> for Closure<T> { fn as_ref(&self) -> &crate::JsValue { &crate::JsValue } }
}
T
cat > "$W/web/src/lib.rs" <<'T'
//! Stand-in for the parts of web-sys that async_ui_web_core uses: nodes are plain Rust objects.
use std::{cell::{Cell, RefCell}, rc::Rc};
use wasm_bindgen::JsValue;
#[derive(Default)]
struct Inner { name: String, kids: RefCell<Vec<Node>>, parent: RefCell<Option<Node>> }
#[derive(Clone)]
pub struct Node(Rc<Inner>);
impl std::fmt::Debug for Node { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0.name) } }
impl PartialEq for Node { fn eq(&self, o: &Self) -> bool { Rc::ptr_eq(&self.0, &o.0) } }
static UNDEF: JsValue = JsValue::UNDEFINED;
impl AsRef<JsValue> for Node { fn as_ref(&self) -> &JsValue { &UNDEF } }
impl Node {
    pub fn fake(name: &str) -> Node { Node(Rc::new(Inner { name: name.into(), ..Default::default() })) }
    pub fn names(&self) -> Vec<String> { self.0.kids.borrow().iter().map(|k| k.0.name.clone()).collect() }
    pub fn is_connected(&self) -> bool { self.0.parent.borrow().is_some() }
    fn detach(&self) {
        let p = self.0.parent.borrow_mut().take();
        if let Some(p) = p { p.0.kids.borrow_mut().retain(|k| k != self); }
    }
    pub fn insert_before(&self, new: &Node, before: Option<&Node>) -> Result<Node, JsValue> {
        if let Some(b) = before { if !self.0.kids.borrow().contains(b) { return Err(JsValue::UNDEFINED) } }
        new.detach();
        let mut k = self.0.kids.borrow_mut();
        let at = match before { Some(b) => match k.iter().position(|x| x == b) { Some(i) => i, None => return Err(JsValue::UNDEFINED) }, None => k.len() };
        k.insert(at, new.clone());
        *new.0.parent.borrow_mut() = Some(self.clone());
        Ok(new.clone())
    }
    pub fn append_child(&self, new: &Node) -> Result<Node, JsValue> { self.insert_before(new, None) }
    pub fn remove_child(&self, old: &Node) -> Result<Node, JsValue> {
        if !self.0.kids.borrow().contains(old) { return Err(JsValue::UNDEFINED) }
        old.detach();
        Ok(old.clone())
    }
}
thread_local! { pub static TIMEOUTS: Cell<usize> = Cell::new(0); }
pub struct Window;
pub struct Document;
impl Window {
    pub fn document(&self) -> Option<Document> { Some(Document) }
    pub fn set_timeout_with_callback(&self, _: &JsValue) -> Result<i32, JsValue> { TIMEOUTS.with(|t| t.set(t.get() + 1)); Ok(0) }
}
pub fn window() -> Option<Window> { Some(Window) }
pub mod console { use wasm_bindgen::JsValue; pub fn error_2(_: &JsValue, _: &JsValue) {} }
T
cd "$W" && cargo test -q --offline --lib --target x86_64-unknown-linux-gnu demo:: -- --test-threads=1
rc=$?
cd /tmp
[ -n "$W" ] && find "$W" -delete
exit $rc
