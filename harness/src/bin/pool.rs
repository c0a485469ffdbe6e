// Worker pools under varied schedules: every item processed exactly once, outputs in order, a lost item never passes unnoticed.
use bi::batcher::Batcher;
use bi::sequential_thread_pool::SequentialThreadPool;
use bi::thread_pool::ThreadPool;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
}

fn work(kind: u64, i: usize) {
    match kind {
        0 => {}
        1 => { for _ in 0..(i * 7919 % 50) * 20 { std::hint::spin_loop(); } }
        2 => { if i % 5 == 0 { std::thread::yield_now(); } }
        3 => { if i % 7 == 0 { std::thread::sleep(std::time::Duration::from_micros((i * 37 % 300) as u64)); } }
        _ => {}
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[1].parse().unwrap();
    let rounds: usize = args[2].parse().unwrap();
    let big: u64 = args[3].parse().unwrap();
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let (mut items, mut out_of_order, mut panics) = (0usize, 0usize, 0usize);
    std::panic::set_hook(Box::new(|_| {}));
    for round in 0..rounds {
        let threads = 1 + r.below(if big > 100 { 16 } else { 4 }) as usize;
        let n = r.below(big) as usize;
        let kind = r.below(5);
        let straggler = if kind == 4 && n > 1 && threads > 1 { r.below((n as u64).min(3)) as usize } else { usize::MAX };
        let done = Arc::new((0..n).map(|_| AtomicUsize::new(0)).collect::<Vec<_>>());
        let order = Arc::new(AtomicUsize::new(0));
        let bump = Arc::new(AtomicUsize::new(0));
        items += n;
        match round % 4 {
            0 | 1 => {
                let (d, o, b) = (done.clone(), order.clone(), bump.clone());
                let f = move |i: usize| {
                    work(kind, i);
                    if i == straggler {
                        // one early item is still under way when all the others are done
                        let begin = std::time::Instant::now();
                        while o.load(Ordering::Relaxed) + 1 < n && begin.elapsed().as_millis() < 500 { std::thread::yield_now(); }
                    }
                    d[i].fetch_add(1, Ordering::Relaxed);
                    if o.fetch_add(1, Ordering::Relaxed) != i { b.fetch_add(1, Ordering::Relaxed); }
                    (i, vec![i as u8; i % 50])
                };
                if round % 4 == 0 {
                    let pool = SequentialThreadPool::new(threads, f, 0..n);
                    let mut k = 0;
                    for (i, v) in pool { if i != k || v.len() != i % 50 { println!("FAIL output {} came as number {} (threads {}, {} items)", i, k, threads, n); std::process::exit(1); } k += 1; }
                    if k != n { println!("FAIL {} outputs of {} (threads {})", k, n, threads); std::process::exit(1); }
                } else {
                    let pool = ThreadPool::new(threads, f, 0..n);
                    let mut seen = vec![0usize; n];
                    for (i, _) in pool { seen[i] += 1; }
                    if seen.iter().any(|&c| c != 1) { println!("FAIL outputs delivered {:?} times (threads {})", seen.iter().find(|&&c| c != 1), threads); std::process::exit(1); }
                }
                if done.iter().any(|c| c.load(Ordering::SeqCst) != 1) { println!("FAIL an item was processed {:?} times", done.iter().map(|c| c.load(Ordering::SeqCst)).find(|&c| c != 1)); std::process::exit(1); }
                out_of_order += bump.load(Ordering::SeqCst);
            }
            2 => {
                let size = 1 + r.below(n as u64 + 5) as usize;
                let flat: Vec<Vec<usize>> = Batcher::new((0..n).collect::<Vec<_>>(), size).collect();
                if flat.concat() != (0..n).collect::<Vec<_>>() || flat.iter().any(|b| b.is_empty() || b.len() > size) { println!("FAIL batches {:?} of {} items, size {}", flat.len(), n, size); std::process::exit(1); }
            }
            _ => {
                if n == 0 { continue; }
                let bad = r.below(n as u64) as usize;
                let seq = r.below(2) == 0;
                let f = move |i: usize| { work(kind, i); if i == bad { panic!("planted"); } i };
                let got = catch_unwind(AssertUnwindSafe(|| if seq { SequentialThreadPool::new(threads, f, 0..n).count() } else { ThreadPool::new(threads, f, 0..n).count() }));
                if got.is_ok() { println!("FAIL a worker panicked on item {} of {}, yet the pool ended normally after {} outputs (threads {})", bad, n, got.unwrap(), threads); std::process::exit(1); }
                panics += 1;
            }
        }
    }
    println!("OK rounds={} items={} out_of_order={} panics={}", rounds, items, out_of_order, panics);
}
