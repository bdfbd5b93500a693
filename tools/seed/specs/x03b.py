id="x03-variant-fields-share-key"; prop="X03"
needs="A derived enum with fields at the same position in two variants; a subscription to one, a write to the other."
breaks="Fields at the same position of different variants get the same identity."
edits=[("x-bow-macros/src/generate.rs","""    for (field_index, field) in filtered_fields.iter().enumerate() {
        let field_name""","""    for field in filtered_fields.iter() {
        let field_index = field.index();
        let field_name"""),
("x-bow-macros/src/generate.rs","""    fn is_deep(&self) -> bool {""","""    fn index(&self) -> usize {
        match self {
            ToGenField::Struct { index, .. } | ToGenField::Enum { index, .. } => *index,
        }
    }
    fn is_deep(&self) -> bool {""")]
demo=("native", r'''
use std::{pin::Pin, sync::Arc, task::{Context, Wake, Waker}};
use futures_core::Stream;
#[allow(unused_imports)] use x_bow::{Store, PathExtGuaranteed, PathExt, Trackable};
#[allow(dead_code)]
#[derive(Trackable)] enum E { A(u32), B(u32) }
struct N; impl Wake for N { fn wake(self: Arc<Self>) {} }
fn main() {
    let store = Store::new(E::A(1));
    let w = Waker::from(Arc::new(N));
    let mut cx = Context::from_waker(&w);
    let b = store.build_path().B_0();
    let mut s = b.until_change();
    assert!(Pin::new(&mut s).poll_next(&mut cx).is_pending());
    *store.build_path().A_0().borrow_opt_mut().unwrap() = 2;
    assert!(Pin::new(&mut s).poll_next(&mut cx).is_pending(), "another variant's field changed");
}
''')
