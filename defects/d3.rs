use wasm_bindgen_test::*;
use std::time::Duration;
use wasmtimer::tokio::{sleep,timeout,interval};
#[wasm_bindgen_test]
async fn sleep_max() { let _s = sleep(Duration::MAX); }
#[wasm_bindgen_test]
async fn timeout_max() { assert_eq!(timeout(Duration::MAX, async {5}).await.unwrap(),5); }
#[wasm_bindgen_test]
async fn interval_max() { let mut i=interval(Duration::MAX); i.tick().await; i.reset(); assert!(timeout(Duration::from_millis(20), i.tick()).await.is_err());
 for b in [wasmtimer::tokio::MissedTickBehavior::Delay, wasmtimer::tokio::MissedTickBehavior::Skip] {
 let mut i=interval(Duration::MAX); i.set_missed_tick_behavior(b); sleep(Duration::from_millis(30)).await; i.tick().await; assert!(timeout(Duration::from_millis(20), i.tick()).await.is_err()); } }
