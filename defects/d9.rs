// A refused pause must leave the clock usable (C13).
use wasm_bindgen::prelude::*;
use wasm_bindgen_test::*;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{pause, resume};

fn refused(f: impl Fn() + 'static) -> bool {
    let c = Closure::wrap(Box::new(f) as Box<dyn Fn()>);
    let r = c.as_ref().unchecked_ref::<js_sys::Function>().call0(&JsValue::NULL).is_err();
    c.forget();
    r
}

#[wasm_bindgen_test]
fn refused_pause_leaves_clock() {
    pause();
    let a = Instant::now();
    assert!(refused(|| pause()));
    let ok = !refused(move || assert!(Instant::now() == a));
    assert!(ok, "the clock is unusable after a refused pause");
    resume();
    assert!(refused(|| resume()));
    assert!(!refused(move || assert!(Instant::now() >= a)));
}
