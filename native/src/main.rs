use num_bigint::BigInt;
use std::collections::HashSet;
use std::time::{Duration, Instant};
use vnative::g::*;

fn all() -> Vec<Check> {
    let mut r = vnative::traits::checks();
    #[cfg(feature = "interval")]
    r.extend(vnative::interval::checks());
    #[cfg(feature = "interval")]
    r.extend(vnative::trans::checks());
    #[cfg(feature = "alg")]
    r.extend(vnative::alg::checks());
    #[cfg(feature = "util")]
    r.extend(vnative::util::checks());
    #[cfg(feature = "poly")]
    r.extend(vnative::poly::checks());
    #[cfg(feature = "mod_int")]
    r.extend(vnative::mod_int::checks());
    r
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run1(c: &Check, case: &[BigInt]) -> Res {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)(case))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("unexpected panic: {}", m))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "replay" {
        // replay NAME int...
        let case: Vec<BigInt> = a[3..].iter().map(|s| s.parse().unwrap()).collect();
        for c in all() {
            if c.name == a[2] {
                match run1(&c, &case) {
                    Ok(()) => println!("PASS {}", c.name),
                    Err(e) => {
                        println!("FAIL {} {:?}: {}", c.name, case.iter().map(|x| x.to_string()).collect::<Vec<_>>(), e);
                        std::process::exit(1);
                    }
                }
            }
        }
        return;
    }
    #[cfg(feature = "interval")]
    if a[1] == "cachehist" {
        let case: Vec<BigInt> = a[2..].iter().map(|s| s.parse().unwrap()).collect();
        let r = std::panic::catch_unwind(|| vnative::trans::hist(&case)).unwrap_or_else(|_| Err("a request panicked".into()));
        if let Err(e) = r {
            println!("{}", e);
            std::process::exit(1);
        }
        return;
    }
    // run PREFIXES(comma) SEED BUDGET_MS POINTS(comma separated ints or -)
    let pre: Vec<&str> = a[2].split(',').collect();
    let seed: u64 = a[3].parse().unwrap();
    let budget: u64 = a[4].parse().unwrap();
    let points: Vec<BigInt> = if a.len() > 5 && a[5] != "-" { a[5].split(',').map(|s| s.parse().unwrap()).collect() } else { vec![] };
    let sel: Vec<Check> = all().into_iter().filter(|c| pre.iter().any(|p| c.name.starts_with(p))).collect();
    let js = |v: &Vec<BigInt>| format!("[{}]", v.iter().map(|x| esc(&x.to_string())).collect::<Vec<_>>().join(","));
    let tw: u32 = sel.iter().map(|c| c.weight).sum();
    let nthreads = 6usize;
    let jobs: Vec<(usize, u64)> = (0..sel.len()).flat_map(|i| (0..2u64).map(move |k| (i, k))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(Vec::new());
    let total = budget * nthreads as u64 / 2;
    // a case that runs this long (ordinary cases take well under a second) counts as not terminating
    let hang: u64 = std::env::var("VNATIVE_HANG_S").ok().and_then(|v| v.parse().ok()).unwrap_or(150);
    let current: Vec<std::sync::Mutex<Option<(usize, Vec<BigInt>, Instant)>>> = (0..nthreads).map(|_| std::sync::Mutex::new(None)).collect();
    let done = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        s.spawn(|| {
            while done.load(std::sync::atomic::Ordering::SeqCst) < nthreads {
                std::thread::sleep(Duration::from_millis(20));
                for c in &current {
                    if let Some((i, case, t)) = &*c.lock().unwrap() {
                        if t.elapsed() > Duration::from_secs(hang) {
                            println!("[{{\"check\":{},\"evaluations\":1,\"distinct\":1,\"sample\":{},\"failures\":[{{\"case\":{},\"why\":\"no result after {} s\"}}]}}]", esc(sel[*i].name), js(case), js(case), hang);
                            std::process::exit(0);
                        }
                    }
                }
            }
        });
        for w in 0..nthreads {
            let (current, done, next, jobs, sel, points, out) = (&current, &done, &next, &jobs, &sel, &points, &out);
            s.spawn(move || {
                std::panic::set_hook(Box::new(|_| {}));
                loop {
                    let j = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if j >= jobs.len() {
                        done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        break;
                    }
                    let (i, k) = jobs[j];
                    let c = &sel[i];
                    let lim = Duration::from_millis(total * c.weight as u64 / tw as u64);
                    let t0 = Instant::now();
                    let mut g = G::new(seed.wrapping_mul(1000).wrapping_add(i as u64 * 10 + k), points.clone());
                    let (mut n, mut fails, mut seen) = (0u64, Vec::new(), HashSet::new());
                    let mut sample = vec![];
                    while t0.elapsed() < lim && n < 400_000 {
                        let case = (c.gen)(&mut g);
                        n += 1;
                        if n == 2 {
                            sample = case.clone();
                        }
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        std::hash::Hash::hash(&case, &mut h);
                        if !seen.insert(std::hash::Hasher::finish(&h)) {
                            continue;
                        }
                        *current[w].lock().unwrap() = Some((i, case.clone(), Instant::now()));
                        let r = run1(c, &case);
                        *current[w].lock().unwrap() = None;
                        if let Err(e) = r {
                            fails.push((case, e));
                            if fails.len() >= 2 {
                                break;
                            }
                        }
                    }
                    out.lock().unwrap().push((i, n, seen.len(), fails, sample));
                }
            });
        }
    });
    let mut rows = out.into_inner().unwrap();
    rows.sort_by_key(|r| r.0);
    let body: Vec<String> = rows.iter().map(|(i, n, d, f, sm)| {
        let fs: Vec<String> = f.iter().map(|(c, e)| format!("{{\"case\":{},\"why\":{}}}", js(c), esc(e))).collect();
        format!("{{\"check\":{},\"evaluations\":{},\"distinct\":{},\"sample\":{},\"failures\":[{}]}}", esc(sel[*i].name), n, d, js(sm), fs.join(","))
    }).collect();
    println!("[{}]", body.join(",\n"));
}
