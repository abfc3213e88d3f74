//! replay HARNESS w:v,w:v,..   runs one harness natively on the given inputs
use kharness::*;

fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().expect("harness name");
    let ins = a.next().unwrap_or_default();
    let ins: Vec<(u32, u64)> = ins
        .split(',')
        // the scheduler's choices are not ours to make
        .filter(|s| !s.is_empty() && !s.starts_with("t:"))
        .map(|s| {
            let (w, v) = s.split_once(':').expect("w:v");
            (w.parse().unwrap(), v.parse().unwrap())
        })
        .collect();
    let h = ALL.iter().flat_map(|l| l.iter()).find(|h| h.0 == name).expect("unknown harness").1;
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        native::on_panic(&l, &m)
    }));
    // a large stack, so that deep recursion shows up as in a main program with default limits
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            // threads: again and again for a while
            let secs: u64 = std::env::var("KSYM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
            let t0 = std::time::Instant::now();
            loop {
                native::set_inputs(ins.clone());
                h();
                if t0.elapsed().as_secs() >= secs {
                    break;
                }
            }
            native::end()
        })
        .unwrap();
    let _ = t.join();
}
