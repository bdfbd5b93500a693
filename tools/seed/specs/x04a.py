id="x04-rc-guaranteed"; prop="X04"
needs="An unconditional borrow_mut of the content of an Rc that has another owner."
breaks="Paths through Rc offer the unconditional operations, which panic when the Rc is shared."
edits=[("x-bow/src/impls/stdlib/rc.rs","""impl<T: ?Sized, P: Path<Out = Rc<T>>> Path for RcMapper<T, P> {""","""impl<T: ?Sized, P: Path<Out = Rc<T>> + crate::PathExtGuaranteed> crate::PathExtGuaranteed for RcMapper<T, P> {}
impl<T: ?Sized, P: Path<Out = Rc<T>>> Path for RcMapper<T, P> {""")]
demo=("native", r'''
use std::rc::Rc;
use x_bow::{Path, PathExt, PathExtGuaranteed, Store};
struct Probe<'a, T>(&'a T);
trait Yes { fn write(&self) -> bool; }
trait No { fn write(&self) -> bool; }
impl<'a, T: PathExtGuaranteed> Yes for Probe<'a, T> where T::Out: Sized {
    fn write(&self) -> bool { drop(PathExtGuaranteed::borrow_mut(self.0)); true }
}
impl<'a, 'b, T: Path> No for &'b Probe<'a, T> { fn write(&self) -> bool { self.0.borrow_opt_mut().is_none() } }
fn main() {
    let rc = Rc::new(5u32);
    let store = Store::new(rc.clone());
    let path = store.build_path().content();
    // the unconditional write must not be offered here: the Rc is shared
    let p: &_ = &*path;
    assert!((&Probe(p)).write());
    assert_eq!(*rc, 5);
}
''')
