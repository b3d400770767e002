// Append to src/timer/clock.rs (and let Instant::now_js return a constant, the host has no performance.now);
// run with cargo test --lib --features tokio-test-util race  (native, 4 threads)
#[cfg(test)]
mod race {
    use super::*;
    #[test]
    fn race() {
        for _ in 0..2000 {
            CLOCK.store(EMPTY_CLOCK, SeqCst);
            let b = Arc::new(std::sync::Barrier::new(4));
            let ts: Vec<_> = (0..4)
                .map(|_| {
                    let b = b.clone();
                    std::thread::spawn(move || {
                        b.wait();
                        let c = clock();
                        Arc::as_ptr(&c.inner) as usize
                    })
                })
                .collect();
            let got: Vec<_> = ts.into_iter().map(|t| t.join().expect("clock() panicked")).collect();
            assert!(got.iter().all(|g| *g == got[0]));
        }
    }
}
