id='c05-root-wake-by-value-ignored'; prop='C05'
needs="The application's root future is woken by value (its waker is consumed) rather than by reference."
breaks='Waking by value does nothing, so the executor is not scheduled.'
edits=[('async_ui_web_core/src/executor.rs', '&RawWakerVTable::new(|_| new_raw_waker(), |_| schedule(), |_| schedule(), |_| {}),', '&RawWakerVTable::new(|_| new_raw_waker(), |_| {}, |_| schedule(), |_| {}),')]
demo=('core', r'''
#[test]
fn demo() {
    crate::executor::root_waker().wake();
    assert_eq!(web_sys::TIMEOUTS.with(|t| t.get()), 1);
}
''')
