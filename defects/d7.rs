use wasm_bindgen_test::*;
use std::time::Duration;
use wasmtimer::tokio::{pause,advance};
use wasmtimer::tokio_util::DelayQueue;
use std::task::*;
#[wasm_bindgen_test] async fn not_early() { pause(); let mut q=DelayQueue::new(); 
  q.insert(0, Duration::from_millis(10)); q.insert(1, Duration::from_millis(65)); advance(Duration::from_millis(10)).await; assert!(q.poll_expired(&mut Context::from_waker(futures::task::noop_waker_ref())).is_ready());
  advance(Duration::from_millis(54)).await;
  let mut cx=Context::from_waker(futures::task::noop_waker_ref());
  assert!(q.poll_expired(&mut cx).is_pending(), "1 ms early");
  advance(Duration::from_millis(1)).await;
  match q.poll_expired(&mut cx) { Poll::Ready(Some(e))=>assert_eq!(e.into_inner(),1), _=>panic!("none") }
 }
