use wasm_bindgen_test::*;
use std::time::Duration;
use wasmtimer::tokio::sleep;
use wasm_bindgen::prelude::*;
#[wasm_bindgen(inline_js = "let n=0; const o=globalThis.setTimeout; globalThis.setTimeout=function(f,t){n++;return o(f,t)}; export function count(){return n}")]
extern "C" { fn count() -> u32; }
#[wasm_bindgen_test]
async fn long_sleep_no_spin() {
    let c0 = count();
    let s = Box::pin(sleep(Duration::from_secs(60*60*24*30)));
    js_timeout(200).await;
    let c = count() - c0;
    drop(s);
    assert!(c < 10, "{} host timeouts in 200ms", c);
}
async fn js_timeout(ms: i32) {
    let p = js_sys::Promise::new(&mut |r, _| {
        let g = js_sys::global();
        let f = js_sys::Reflect::get(&g, &"setTimeout".into()).unwrap();
        let f: js_sys::Function = f.into();
        f.call2(&wasm_bindgen::JsValue::NULL, &r, &ms.into()).unwrap();
    });
    wasm_bindgen_futures::JsFuture::from(p).await.unwrap();
}
