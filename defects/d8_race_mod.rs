// Append to src/timer/mod.rs (and add `pub fn t(ms)` to Instant on native); run with
// cargo test --release --lib race::  (native, 2 threads)
#[cfg(test)]
mod race {
    use super::*;
    use crate::tokio::Sleep;
    use std::sync::atomic::AtomicBool;
    #[test]
    fn race() {
        let mut timer = Timer::new();
        let h = timer.handle();
        let stop = Arc::new(AtomicBool::new(false));
        let runs = Arc::new(AtomicUsize::new(0));
        let (s2, r2) = (stop.clone(), runs.clone());
        let th = std::thread::spawn(move || {
            let w = futures::task::noop_waker();
            while !s2.load(SeqCst) {
                let _ = Pin::new(&mut timer).poll(&mut Context::from_waker(&w));
                timer.advance_to(Instant::t(500));
                r2.fetch_add(1, SeqCst);
            }
        });
        let mut s = Box::pin(Sleep::new_handle(Instant::t(1000), h));
        let mut bad = 0u64;
        for _ in 0..3_000_000u64 {
            s.as_mut().reset(Instant::t(400));
            for _ in 0..(bad % 7) { std::hint::spin_loop(); }
            s.as_mut().reset(Instant::t(100000));
            let r = runs.load(SeqCst);
            while runs.load(SeqCst) < r + 2 {}
            if s.is_elapsed() { bad += 1; }
        }
        stop.store(true, SeqCst);
        th.join().unwrap();
        assert_eq!(bad, 0, "completed {bad} times before the deadline");
    }
}
