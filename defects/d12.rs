// features: tokio-test-util
// An advance that cannot be represented must leave the clock usable (C13).
use std::time::Duration;
use wasm_bindgen::prelude::*;
use wasm_bindgen_test::*;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{advance, pause, resume};

fn refused(f: impl Fn() + 'static) -> bool {
    let c = Closure::wrap(Box::new(f) as Box<dyn Fn()>);
    let r = c.as_ref().unchecked_ref::<js_sys::Function>().call0(&JsValue::NULL).is_err();
    c.forget();
    r
}

#[wasm_bindgen_test]
fn refused_advance_leaves_clock() {
    pause();
    let a = Instant::now();
    assert!(refused(|| drop(futures::executor::block_on(advance(Duration::MAX)))));
    assert!(!refused(move || assert!(Instant::now() == a)), "the clock is unusable after a refused advance");
    resume();
}
