use wasm_bindgen_test::*;
use std::time::Duration;
use std::rc::Rc; use std::cell::RefCell;
use wasmtimer::tokio::{sleep,timeout};
use wasmtimer::std::Instant;
use wasmtimer::tokio_util::DelayQueue;
use std::future::poll_fn;
fn q() -> Rc<RefCell<DelayQueue<u32>>> { Rc::new(RefCell::new(DelayQueue::new())) }
async fn next(q: Rc<RefCell<DelayQueue<u32>>>) -> Option<u32> { poll_fn(|cx| q.borrow_mut().poll_expired(cx)).await.map(|e| e.into_inner()) }
async fn run(q: Rc<RefCell<DelayQueue<u32>>>, f: impl FnOnce(&mut DelayQueue<u32>) + 'static) -> Option<Option<u32>> {
    let q2 = q.clone();
    wasm_bindgen_futures::spawn_local(async move { sleep(Duration::from_millis(20)).await; f(&mut q2.borrow_mut()); });
    timeout(Duration::from_millis(900), next(q)).await.ok()
}
#[wasm_bindgen_test] async fn remove_last_wakes() { let q=q(); let k=q.borrow_mut().insert(1, Duration::from_secs(2)); 
  let t=Instant::now(); let r=run(q, move |q| {q.remove(&k);}).await; assert_eq!(r, Some(None)); assert!(t.elapsed()<Duration::from_millis(400)); }
#[wasm_bindgen_test] async fn clear_wakes() { let t=Instant::now(); let q=q(); q.borrow_mut().insert(1, Duration::from_secs(2)); 
  let r=run(q, move |q| {q.clear();}).await; assert_eq!(r, Some(None)); assert!(t.elapsed()<Duration::from_millis(400)); }
#[wasm_bindgen_test] async fn reset_to_past_wakes() { let q=q(); let t0=Instant::now(); let k=q.borrow_mut().insert(1, Duration::from_secs(2)); 
  let t=Instant::now(); let r=run(q, move |q| {q.reset_at(&k, t0 - Duration::from_millis(5));}).await; assert_eq!(r, Some(Some(1))); assert!(t.elapsed()<Duration::from_millis(400), "{:?}", t.elapsed()); }
#[wasm_bindgen_test] async fn far() { let mut q=DelayQueue::new(); q.insert(1, Duration::from_millis(60)); poll_fn(|cx| q.poll_expired(cx)).await.unwrap(); assert!(poll_fn(|cx| q.poll_expired(cx)).await.is_none()); q.insert(2, Duration::from_millis((1<<36)-30)); 
 let k=q.insert(3, Duration::from_millis(30)); let _=k; assert_eq!(poll_fn(|cx| q.poll_expired(cx)).await.unwrap().into_inner(), 3);
 assert!(timeout(Duration::from_millis(50), poll_fn(|cx| q.poll_expired(cx))).await.is_err()); }
