#!/bin/bash
# builds main.rs beside this file with the Dropdown component of the current directory against a stand-in <select>, and runs it
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS
W=$(mktemp -d /tmp/vp-demo.XXXXXX)
mkdir -p "$W/web/src" "$W/bindgen/src" "$W/html/src" "$W/src"
cp "$REPO/async_ui_web/src/components/dropdown.rs" "$W/src/dropdown.rs"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
futures-lite = "1.13.0"
async_ui_web_html = { package = "fake-html", path = "html" }
wasm-bindgen = { package = "fake-bindgen", path = "bindgen" }
web-sys = { package = "fake-web", path = "web" }
T
for c in web html bindgen; do
printf '[package]\nname = "fake-%s"\nversion = "0.3.0"\nedition = "2021"\n[dependencies]\n' $c > "$W/$c/Cargo.toml"
done
echo 'web-sys = { package = "fake-web", path = "../web" }
futures-lite = "1.13.0"' >> "$W/html/Cargo.toml"
cat > "$W/bindgen/src/lib.rs" <<'T'
pub trait UnwrapThrowExt<T>: Sized { fn unwrap_throw(self) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } }
T
cat > "$W/web/src/lib.rs" <<'T'
//! Stand-in for web-sys: a <select> that shows one option, as the HTML standard describes it.
use std::{cell::{Cell, RefCell}, ops::Deref, rc::Rc};
#[derive(Debug, Clone)]
pub struct JsValue;
#[derive(Default)]
struct Inner { text: RefCell<String>, kids: RefCell<Vec<Node>>, chosen: Cell<bool>, parent: RefCell<Option<Node>> }
#[derive(Clone, Default)]
pub struct Node(Rc<Inner>);
impl PartialEq for Node { fn eq(&self, o: &Self) -> bool { Rc::ptr_eq(&self.0, &o.0) } }
impl AsRef<Node> for Node { fn as_ref(&self) -> &Node { self } }
impl Node {
    fn reset(&self) {
        let k = self.0.kids.borrow();
        match k.iter().rposition(|x| x.0.chosen.get()) {
            Some(i) => k.iter().enumerate().for_each(|(j, x)| x.0.chosen.set(i == j)),
            None => { if let Some(x) = k.first() { x.0.chosen.set(true) } }
        }
    }
    pub fn insert_before(&self, new: &Node, before: Option<&Node>) -> Result<Node, JsValue> {
        if let Some(b) = before { if !self.0.kids.borrow().contains(b) { return Err(JsValue) } }
        let mut k = self.0.kids.borrow_mut();
        let next = k.iter().position(|x| x == new).and_then(|i| k.get(i + 1).cloned());
        let before = if before == Some(new) { next.as_ref() } else { before };
        k.retain(|x| x != new);
        let at = before.map_or(k.len(), |b| k.iter().position(|x| x == b).unwrap());
        k.insert(at, new.clone());
        *new.0.parent.borrow_mut() = Some(self.clone());
        drop(k);
        self.reset();
        Ok(new.clone())
    }
    pub fn remove_child(&self, old: &Node) -> Result<Node, JsValue> {
        if !self.0.kids.borrow().contains(old) { return Err(JsValue) }
        self.0.kids.borrow_mut().retain(|x| x != old);
        *old.0.parent.borrow_mut() = None;
        self.reset();
        Ok(old.clone())
    }
    pub fn set_text_content(&self, t: Option<&str>) { *self.0.text.borrow_mut() = t.unwrap_or("").to_string() }
    pub fn texts(&self) -> String { self.0.kids.borrow().iter().map(|k| k.0.text.borrow().clone()).collect::<Vec<_>>().join(" ") }
}
#[derive(Clone, Default)]
pub struct HtmlSelectElement(Node);
impl Deref for HtmlSelectElement { type Target = Node; fn deref(&self) -> &Node { &self.0 } }
impl HtmlSelectElement {
    pub fn selected_index(&self) -> i32 { self.0.0.kids.borrow().iter().position(|k| k.0.chosen.get()).map_or(-1, |i| i as i32) }
    pub fn set_selected_index(&self, i: i32) { self.0.0.kids.borrow().iter().enumerate().for_each(|(j, k)| k.0.chosen.set(i == j as i32)) }
    pub fn set_value(&self, v: &str) {
        let i = self.0.0.kids.borrow().iter().position(|k| !v.is_empty() && *k.0.text.borrow() == v).map_or(-1, |i| i as i32);
        self.set_selected_index(i);
    }
}
#[derive(Clone, Default)]
pub struct HtmlOptionElement(Node);
impl Deref for HtmlOptionElement { type Target = Node; fn deref(&self) -> &Node { &self.0 } }
impl HtmlOptionElement {
    pub fn set_selected(&self, on: bool) {
        let p = self.0.0.parent.borrow().clone();
        if on { if let Some(p) = &p { p.0.kids.borrow().iter().for_each(|k| k.0.chosen.set(false)) } }
        self.0.0.chosen.set(on);
        if let Some(p) = p { p.reset() }
    }
}
pub struct Event;
T
cat > "$W/html/src/lib.rs" <<'T'
pub mod events {
    pub trait EmitHtmlElementEvent { fn until_change(&self) -> futures_lite::stream::Pending<web_sys::Event>; }
}
pub mod nodes {
    use std::ops::Deref;
    macro_rules! el { ($n:ident, $e:ident) => {
        #[derive(Default)]
        pub struct $n { pub element: web_sys::$e }
        impl $n { pub fn new() -> Self { Self::default() } pub async fn render<F>(&self, _: F) { std::future::pending::<()>().await } }
        impl Deref for $n { type Target = web_sys::$e; fn deref(&self) -> &Self::Target { &self.element } }
        impl AsRef<web_sys::Node> for $n { fn as_ref(&self) -> &web_sys::Node { &self.element } }
    } }
    el!(Select, HtmlSelectElement);
    el!(Option, HtmlOptionElement);
}
T
sed -i '/pub fn until_change/,/^    }/d' "$W/src/dropdown.rs"
cd "$W" && cargo run -q --offline --target x86_64-unknown-linux-gnu
rc=$?
cd /tmp
[ -n "$W" ] && find "$W" -delete
exit $rc
