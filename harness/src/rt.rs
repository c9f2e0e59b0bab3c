//! Real threads for hist.rs.
pub use std::thread;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub type Gate = Arc<AtomicUsize>;
pub fn gate(n: usize) -> Gate {
  Arc::new(AtomicUsize::new(n))
}
/// Waits (spinning, a while) until all threads are here.
pub fn wait(g: &Gate) {
  g.fetch_sub(1, Ordering::SeqCst);
  for _ in 0..200_000 {
    if g.load(Ordering::SeqCst) == 0 {
      return;
    }
    std::hint::spin_loop();
  }
}
