use wasm_bindgen_test::*;
use std::time::Duration;
use wasmtimer::std::Instant;
use wasmtimer::tokio::sleep;
#[wasm_bindgen_test]
async fn many_long_then_short() {
    let mut v = vec![];
    for _ in 0..40 {
        v.push(Box::pin(sleep(Duration::from_secs(7))));
        // let the driver run
        let s = js_timeout(2); s.await;
    }
    let t=Instant::now();
    sleep(Duration::from_millis(20)).await;
    let e=t.elapsed();
    assert!(e < Duration::from_millis(500), "{:?}", e);
}
#[wasm_bindgen_test]
async fn long_sleep_no_spin() {
    let n0 = Instant::now();
    let _s = sleep(Duration::from_secs(60*60*24*30));
    js_timeout(50).await;
    let _ = n0;
}
async fn js_timeout(ms: i32) {
    let p = js_sys::Promise::new(&mut |r, _| {
        let g = js_sys::global();
        let f = js_sys::Reflect::get(&g, &"setTimeout".into()).unwrap();
        let f: js_sys::Function = f.into();
        f.call2(&wasm_bindgen::JsValue::NULL, &r, &ms.into()).unwrap();
    });
    wasm_bindgen_futures::JsFuture::from(p).await.unwrap();
}
