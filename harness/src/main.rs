//! Replays the cases a TLC run prints on the real code.
//!
//! vwharness OP [key=value ...]   cases on stdin, one TLC line each
//! vwharness show FILE            the canonical form of one text
//!
//! Prints one JSON line: what was run and what differed.
mod actual;
mod expect;
mod ops;
mod text;

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::sync_channel;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What comparing one case gave: Ok(tags counted for the evidence) or the difference
pub type Outcome = Result<Vec<&'static str>, Value>;

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = Default::default(); }

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Default)]
struct Stats {
    cases: u64,
    distinct: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    failures: Vec<Value>,
    nfail: u64,
}

fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn summary(st: &Stats, extra: Option<Value>) -> Value {
    let mut f = st.failures.clone();
    if let Some(x) = extra {
        f.push(x);
    }
    json!({"cases": st.cases, "distinct": st.distinct.len(), "tags": st.tags,
           "samples": st.samples, "nfail": st.nfail + (f.len() as u64 - st.failures.len() as u64),
           "failures": f})
}

/// << "E", "…" >> as TLC prints it
pub fn decode(line: &str) -> Option<Value> {
    let l = line.trim_end();
    let l = l.strip_prefix("<<\"E\", ")?.strip_suffix(">>")?;
    let s: String = serde_json::from_str(l).ok()?;
    serde_json::from_str(&s).ok()
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let op = args.get(0).expect("op").to_string();
    let opts: BTreeMap<String, String> = args[1..]
        .iter()
        .filter_map(|a| a.find('=').map(|i| (a[..i].to_string(), a[i + 1..].to_string())))
        .collect();
    if op == "show" {
        let t = std::fs::read_to_string(&args[1]).unwrap();
        if opts.contains_key("text") {
            println!("{}", ops::written(&t));
            return;
        }
        println!("{}", serde_json::to_string_pretty(&ops::show(&t)).unwrap());
        return;
    }
    #[cfg(feature = "html")]
    if op == "serve" {
        // deep pages need a deep stack
        std::thread::Builder::new().stack_size(256 << 20).spawn(ops::serve::serve).unwrap().join().unwrap();
        return;
    }
    let opts = Arc::new(opts);
    let nthreads: usize = opts.get("threads").map(|x| x.parse().unwrap()).unwrap_or(6);
    let hang = Duration::from_secs(opts.get("hang").map(|x| x.parse().unwrap()).unwrap_or(20));
    let stats = Arc::new(Mutex::new(Stats::default()));
    let current: Arc<Vec<Mutex<Option<(Instant, String)>>>> =
        Arc::new((0..nthreads).map(|_| Mutex::new(None)).collect());
    let (tx, rx) = sync_channel::<Vec<String>>(64);
    let rx = Arc::new(Mutex::new(rx));
    let maxfail = 40;

    let mut handles = vec![];
    for n in 0..nthreads {
        let (rx, stats, current, opts, op) =
            (rx.clone(), stats.clone(), current.clone(), opts.clone(), op.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut cx = ops::Ctx::new(&op, &opts, n);
                    let cur = opts.get("cur").map(|d| {
                        std::fs::File::create(format!("{}/cur{}", d, n)).unwrap()
                    });
                    let note = |l: &str| {
                        use std::os::unix::fs::FileExt;
                        if let Some(f) = &cur {
                            f.set_len(0).unwrap();
                            f.write_all_at(l.as_bytes(), 0).unwrap();
                        }
                    };
                    loop {
                        let batch = match rx.lock().unwrap().recv() {
                            Ok(b) => b,
                            Err(_) => break,
                        };
                        for line in batch {
                            let v = match decode(&line) {
                                Some(v) => v,
                                None => {
                                    eprintln!("bad case line: {}", line);
                                    std::process::exit(3);
                                }
                            };
                            *current[n].lock().unwrap() = Some((Instant::now(), line.clone()));
                            note(&line);
                            let out = match guarded(|| cx.run(&v)) {
                                Ok(x) => x,
                                Err(p) => Err(json!({"panic": p})),
                            };
                            *current[n].lock().unwrap() = None;
                            note("");
                            let h = hash(&ops::key(&v));
                            let mut st = stats.lock().unwrap();
                            st.cases += 1;
                            let fresh = st.distinct.insert(h);
                            match out {
                                Ok(tags) => {
                                    if fresh {
                                        for t in tags {
                                            *st.tags.entry(t).or_default() += 1;
                                        }
                                        let c = st.distinct.len();
                                        if st.samples.len() < 6 && c.count_ones() == 1 && c > 8 {
                                            st.samples.push(ops::sample(&v));
                                        }
                                    }
                                }
                                Err(d) => {
                                    if fresh {
                                        st.nfail += 1;
                                        let len = ops::key(&v).len();
                                        let f = json!({"len": len, "case": ops::sample(&v), "diff": d, "line": line});
                                        st.failures.push(f);
                                        if st.failures.len() > maxfail {
                                            st.failures.sort_by_key(|f| f["len"].as_u64());
                                            st.failures.truncate(maxfail);
                                        }
                                    }
                                }
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    // watchdog: a case that does not come back is a difference too
    {
        let (stats, current) = (stats.clone(), current.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for c in current.iter() {
                let c = c.lock().unwrap().clone();
                if let Some((t, line)) = c {
                    if t.elapsed() > hang {
                        let v = decode(&line).unwrap();
                        let x = json!({"len":0,"case": ops::sample(&v), "diff": {"hang": hang.as_secs()}, "line": line});
                        println!("{}", summary(&stats.lock().unwrap(), Some(x)));
                        std::io::stdout().flush().unwrap();
                        std::process::exit(0);
                    }
                }
            }
        });
    }
    let stdin = std::io::stdin();
    let mut batch = vec![];
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.starts_with("<<\"E\", ") {
            batch.push(line);
            if batch.len() >= 64 {
                tx.send(std::mem::take(&mut batch)).unwrap();
            }
        } else {
            eprintln!("{}", line);
        }
    }
    tx.send(batch).unwrap();
    drop(tx);
    for h in handles {
        h.join().unwrap();
    }
    let mut st = stats.lock().unwrap();
    st.failures.sort_by_key(|f| f["len"].as_u64());
    if let Some(p) = opts.get("hashes") {
        let b: Vec<u8> = st.distinct.iter().flat_map(|h| h.to_le_bytes().to_vec()).collect();
        std::fs::write(p, b).unwrap();
    }
    println!("{}", summary(&st, None));
}
