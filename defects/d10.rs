use wasm_bindgen_test::wasm_bindgen_test;
use std::{cell::RefCell, future::Future, pin::Pin, sync::{Arc, Mutex}, task::{Context, Wake, Waker, Poll}, time::Duration};
use wasmtimer::tokio::{advance, pause, sleep, Sleep};
struct W(Mutex<Option<SendSleep>>);
struct SendSleep(Pin<Box<Sleep>>);
unsafe impl Send for SendSleep {}
impl Wake for W { fn wake(self: Arc<Self>) { let s = self.0.lock().unwrap().take(); drop(s); } }
#[wasm_bindgen_test]
async fn waker_drops_sleep() {
    pause();
    let mut a = Box::pin(sleep(Duration::from_millis(10)));
    let b = Box::pin(sleep(Duration::from_millis(1000)));
    let w = Arc::new(W(Mutex::new(Some(SendSleep(b)))));
    let waker: Waker = w.clone().into();
    assert!(a.as_mut().poll(&mut Context::from_waker(&waker)).is_pending());
    advance(Duration::from_millis(20)).await;
    assert!(w.0.lock().unwrap().is_none());
    assert!(matches!(a.as_mut().poll(&mut Context::from_waker(&waker)), Poll::Ready(_)));
}
