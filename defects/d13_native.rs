// rustc -C debug-assertions=off d13_native.rs && ./d13_native
// An item almost a full turn of the wheel ahead must not hide nearer ones (C24).
mod tokio_util {
    #[path = "/repo/src/tokio_util/wheel/mod.rs"]
    pub mod wheel;
}
use tokio_util::wheel::{Stack, Wheel};

#[derive(Default, Debug)]
struct Items(Vec<usize>);

impl Stack for Items {
    type Owned = usize;
    type Borrowed = usize;
    type Store = Vec<u64>;
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn push(&mut self, item: usize, _: &mut Vec<u64>) {
        self.0.push(item)
    }
    fn pop(&mut self, _: &mut Vec<u64>) -> Option<usize> {
        self.0.pop()
    }
    fn remove(&mut self, item: &usize, _: &mut Vec<u64>) {
        self.0.retain(|x| x != item)
    }
    fn when(item: &usize, store: &Vec<u64>) -> u64 {
        store[*item]
    }
}


fn main() {
    let mut store = vec![1000u64, 1000 + (1u64 << 36) - 1, 20 * 86400_000];
    let mut w: Wheel<Items> = Wheel::new();
    w.insert(store[0], 0, &mut store).ok().unwrap();
    assert_eq!(w.poll(1000, &mut store), Some(0));
    assert_eq!(w.poll(1000, &mut store), None);
    w.insert(store[1], 1, &mut store).ok().unwrap();
    w.insert(store[2], 2, &mut store).ok().unwrap();
    assert_eq!(w.poll(30 * 86400_000, &mut store), Some(2));
}
