#!/bin/bash
# builds main.rs beside this file with the list components, async_ui_web_core and async_ui_internal_utils of the current directory
# against a stand-in web-sys whose nodes are plain Rust objects, and runs it
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS
W=$(mktemp -d /tmp/vp-demo.XXXXXX)
mkdir -p "$W/web/src" "$W/bindgen/src" "$W/core" "$W/src"
cp -r "$REPO/async_ui_web_core/src" "$W/core/src"
cp -r "$REPO/async_ui_web/src/lists" "$W/src/lists"
cp -r "$REPO/async_ui_internal_utils" "$W/utils"
cp "$HERE/main.rs" "$W/src/main.rs"
# the virtualized list needs layout and is left out
printf 'mod diffed_list;\nmod dynamic_list;\nmod modeled_list;\npub use diffed_list::DiffedList;\npub use dynamic_list::DynamicList;\npub use modeled_list::{ListModel, ModeledList};\n' > "$W/src/lists/mod.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
async_ui_web_core = { path = "core" }
async_ui_internal_utils = { path = "utils" }
async-executor = "1.5.0"
scopeguard = "1.1.0"
wasm-bindgen = { package = "fake-bindgen", path = "bindgen" }
web-sys = { package = "fake-web", path = "web" }
T
cat > "$W/core/Cargo.toml" <<T
[package]
name = "async_ui_web_core"
version = "0.2.1"
edition = "2021"
[dependencies]
pin-project = "1.0"
scoped-tls-hkt = "0.1.2"
smallvec = { version = "1", features = ["union", "const_generics"] }
bitvec = { version = "1.0.1", default-features = false, features = ["alloc"] }
wasm-bindgen = { package = "fake-bindgen", path = "../bindgen" }
async_ui_internal_utils = { path = "../utils" }
web-sys = { package = "fake-web", path = "../web" }
T
cat > "$W/web/Cargo.toml" <<T
[package]
name = "fake-web"
version = "0.3.64"
edition = "2021"
[dependencies]
wasm-bindgen = { package = "fake-bindgen", path = "../bindgen" }
T
cat > "$W/bindgen/Cargo.toml" <<T
[package]
name = "fake-bindgen"
version = "0.2.87"
edition = "2021"
T
cat > "$W/bindgen/src/lib.rs" <<'T'
//! Stand-in for the parts of wasm-bindgen that async_ui_web_core uses.
#[derive(Debug, Clone, PartialEq)]
pub struct JsValue;
impl JsValue { pub const UNDEFINED: JsValue = JsValue; }
impl From<&str> for JsValue { fn from(_: &str) -> Self { JsValue } }
pub trait JsCast { fn unchecked_ref(&self) -> &JsValue { &JsValue } }
impl JsCast for JsValue {}
pub trait UnwrapThrowExt<T>: Sized { fn unwrap_throw(self) -> T; fn expect_throw(self, m: &str) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } fn expect_throw(self, m: &str) -> T { self.expect(m) } }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } fn expect_throw(self, m: &str) -> T { self.expect(m) } }
pub mod closure {
    pub struct Closure<T: ?Sized>(std::marker::PhantomData<T>);
    impl<T: ?Sized> Closure<T> { pub fn new<F>(_: F) -> Self { Closure(std::marker::PhantomData) } }
    impl<T: ?Sized> AsRef<crate::JsValue> for Closure<T> { fn as_ref(&self) -> &crate::JsValue { &crate::JsValue } }
}
T
cat > "$W/web/src/lib.rs" <<'T'
//! Stand-in for the parts of web-sys that async_ui_web_core uses: nodes are plain Rust objects.
use std::{cell::{Cell, RefCell}, rc::Rc};
use wasm_bindgen::JsValue;
#[derive(Default)]
struct Inner { name: String, kids: RefCell<Vec<Node>>, parent: RefCell<Option<Node>> }
#[derive(Clone)]
pub struct Node(Rc<Inner>);
impl std::fmt::Debug for Node { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0.name) } }
impl PartialEq for Node { fn eq(&self, o: &Self) -> bool { Rc::ptr_eq(&self.0, &o.0) } }
static UNDEF: JsValue = JsValue::UNDEFINED;
impl AsRef<JsValue> for Node { fn as_ref(&self) -> &JsValue { &UNDEF } }
impl Node {
    pub fn fake(name: &str) -> Node { Node(Rc::new(Inner { name: name.into(), ..Default::default() })) }
    pub fn names(&self) -> Vec<String> { self.0.kids.borrow().iter().map(|k| k.0.name.clone()).collect() }
    pub fn is_connected(&self) -> bool { self.0.parent.borrow().is_some() }
    fn detach(&self) {
        let p = self.0.parent.borrow_mut().take();
        if let Some(p) = p { p.0.kids.borrow_mut().retain(|k| k != self); }
    }
    pub fn insert_before(&self, new: &Node, before: Option<&Node>) -> Result<Node, JsValue> {
        if let Some(b) = before { if !self.0.kids.borrow().contains(b) { return Err(JsValue::UNDEFINED) } }
        if new.0.name == "#fragment" {
            let kids = new.0.kids.borrow().clone();
            for k in kids { self.insert_before(&k, before)?; }
            return Ok(new.clone());
        }
        if before == Some(new) { let b = new.next_sibling(); return self.insert_before(new, b.as_ref()); }
        new.detach();
        let mut k = self.0.kids.borrow_mut();
        let at = match before { Some(b) => match k.iter().position(|x| x == b) { Some(i) => i, None => return Err(JsValue::UNDEFINED) }, None => k.len() };
        k.insert(at, new.clone());
        *new.0.parent.borrow_mut() = Some(self.clone());
        Ok(new.clone())
    }
    pub fn next_sibling(&self) -> Option<Node> {
        let p = self.0.parent.borrow().clone()?;
        let k = p.0.kids.borrow();
        let i = k.iter().position(|x| x == self)?;
        k.get(i + 1).cloned()
    }
    pub fn parent_node(&self) -> Option<Node> { self.0.parent.borrow().clone() }
    pub fn is_same_node(&self, o: Option<&Node>) -> bool { Some(self) == o }
    pub fn append_child(&self, new: &Node) -> Result<Node, JsValue> { self.insert_before(new, None) }
    pub fn remove_child(&self, old: &Node) -> Result<Node, JsValue> {
        if !self.0.kids.borrow().contains(old) { return Err(JsValue::UNDEFINED) }
        old.detach();
        Ok(old.clone())
    }
}
impl AsRef<Node> for Node { fn as_ref(&self) -> &Node { self } }
#[derive(Clone, Debug)]
pub struct Comment(Node);
impl Comment { pub fn new() -> Result<Comment, JsValue> { Ok(Comment(Node::fake("#comment"))) } }
impl From<Comment> for Node { fn from(c: Comment) -> Node { c.0 } }
impl std::ops::Deref for Comment { type Target = Node; fn deref(&self) -> &Node { &self.0 } }
#[derive(Clone, Debug)]
pub struct DocumentFragment(Node);
impl DocumentFragment { pub fn new() -> Result<DocumentFragment, JsValue> { Ok(DocumentFragment(Node::fake("#fragment"))) } }
impl From<DocumentFragment> for Node { fn from(c: DocumentFragment) -> Node { c.0 } }
impl std::ops::Deref for DocumentFragment { type Target = Node; fn deref(&self) -> &Node { &self.0 } }
impl AsRef<Node> for DocumentFragment { fn as_ref(&self) -> &Node { &self.0 } }
thread_local! { pub static TIMEOUTS: Cell<usize> = Cell::new(0); }
pub struct Window;
pub struct Document;
impl Window {
    pub fn document(&self) -> Option<Document> { Some(Document) }
    pub fn set_timeout_with_callback(&self, _: &JsValue) -> Result<i32, JsValue> { TIMEOUTS.with(|t| t.set(t.get() + 1)); Ok(0) }
}
pub fn window() -> Option<Window> { Some(Window) }
pub mod console { use wasm_bindgen::JsValue; pub fn error_2(_: &JsValue, _: &JsValue) {} }
T
cd "$W" && cargo run -q --offline --target x86_64-unknown-linux-gnu
rc=$?
cd /tmp
[ -n "$W" ] && find "$W" -delete
exit $rc
