//! Replays generated inputs against the library compiled from /repo and compares what it does with
//! an independent statement of each property.   replay PROP SEED N WORDSFILE SECONDS
#![allow(dead_code, clippy::all)]
mod gen;
mod mock;
mod p_data;
mod p_req;
mod p_verifier;
mod p_crypto;

use gen::G;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct R {
    pub prop: String,
    pub fails: Vec<String>,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// what the current case is about, for reports
    pub what: String,
}

impl R {
    pub fn note(&mut self, s: impl Into<String>) {
        self.what = s.into();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.what.hash(&mut h);
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h.finish());
        }
        if self.samples.len() < 2 {
            self.samples.push(self.what.clone());
        }
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok && self.fails.len() < 30 {
            let m = format!("{} | input: {}", msg(), self.what);
            let m: String = m.chars().take(1800).collect();
            self.fails.push(m.replace('\n', "\\n").replace('\r', "\\r"));
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: T, want: T, msg: &str) {
        if got != want {
            self.check(false, || format!("{msg}: got {got:?}, expected {want:?}"));
        }
    }
}

thread_local! {
    pub static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn run<F: std::future::Future>(f: F) -> F::Output {
    RT.with(|rt| rt.block_on(f))
}

type Case = fn(&mut G, &mut R);

fn cases(prop: &str) -> Vec<Case> {
    match prop {
        "C01" => vec![p_req::c01, p_req::c01_bare],
        "C02" => vec![p_req::c02],
        "C03" => vec![p_req::c03],
        "C04" => vec![p_req::c04, p_req::c04_direct],
        "C05" => vec![p_req::c05],
        "C06" => vec![p_req::c06],
        "C07" => vec![p_req::c07_parse, p_req::c07_roundtrip],
        "C08" => vec![p_crypto::c08],
        "C09" => vec![p_crypto::c09],
        "C10" => vec![p_crypto::c10],
        "C11" => vec![p_verifier::c11],
        "C12" => vec![p_verifier::c12, p_verifier::c12_builder],
        "C13" => vec![p_verifier::c13, p_verifier::c13_order],
        "C14" => vec![p_verifier::c14],
        "C15" => vec![p_verifier::c15, p_verifier::c15_threads, p_verifier::c15_race],
        "C16" => vec![p_data::c16, p_data::c16_parse],
        "C17" => vec![p_req::c17],
        "C18" => vec![p_data::c18],
        "C19" => vec![p_data::c19],
        "C20" => vec![p_data::c20],
        "C21" => vec![p_data::c21],
        "C22" => vec![p_data::c22],
        #[cfg(jwe)]
        "C23" => vec![p_crypto::c23, p_crypto::c23_builder],
        "C24" => vec![p_data::c24],
        "C25" => vec![p_data::c25],
        "C26" => vec![p_data::c26],
        "C27" => vec![p_crypto::c27],
        "C28" => vec![p_crypto::c28],
        "C29" => vec![
            p_req::c29, p_req::c01, p_req::c02, p_req::c03, p_req::c05, p_req::c06, p_req::c07_parse, p_req::c07_roundtrip, p_crypto::c08,
            p_crypto::c09, p_crypto::c10, p_verifier::c11, p_verifier::c12, p_verifier::c13, p_verifier::c14, p_data::c16, p_data::c16_parse, p_req::c17, p_data::c18,
            p_data::c19, p_data::c20, p_data::c21, p_data::c22, p_data::c25, p_data::c26, p_crypto::c27,
            #[cfg(jwe)]
            p_crypto::c23, 
            #[cfg(jwe)]
            p_crypto::c23_builder,
        ],
        _ => vec![],
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let seed: u64 = a[2].parse().unwrap_or(1);
    let n: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1000);
    let words: Vec<String> = a.get(4).and_then(|f| std::fs::read_to_string(f).ok()).and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
    let words = Arc::new(words);
    let secs: u64 = a.get(5).and_then(|s| s.parse().ok()).unwrap_or(10);
    let threads: u64 = a.get(6).and_then(|s| s.parse().ok()).unwrap_or(6);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
    let cs = cases(&prop);
    let out = Arc::new(Mutex::new((Vec::<String>::new(), 0u64, HashSet::<u64>::new(), Vec::<String>::new())));
    if cs.is_empty() {
        println!("STATS {{\"cases\":0,\"distinct\":0}}");
        return;
    }
    mock::init_pools();
    let end = Instant::now() + Duration::from_secs(secs);
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (cs, words, out, prop) = (cs.clone(), words.clone(), out.clone(), prop.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut g = G::new(seed.wrapping_mul(1000).wrapping_add(t), words);
                    let mut r = R { prop: prop.clone(), fails: vec![], cases: 0, distinct: HashSet::new(), samples: vec![], what: String::new() };
                    let mut i = 0u64;
                    while i < n / threads + 1 && Instant::now() < end && r.fails.len() < 10 {
                        let f = cs[(i % cs.len() as u64) as usize];
                        i += 1;
                        r.cases += 1;
                        let before = r.fails.len();
                        let mut again = if i % 5 == 0 { Some(g.clone()) } else { None };
                        let mut res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut g, &mut r)));
                        if let (Some(g2), Ok(_)) = (&mut again, &res) {
                            // the same case once more: what happened before must not matter
                            if r.fails.len() == before {
                                res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(g2, &mut r)));
                                if r.fails.len() > before {
                                    let k = r.fails.len() - 1;
                                    r.fails[k].push_str(" (the second time the same thing is done)");
                                }
                            }
                        }
                        if prop == "C29" {
                            // only panics count here
                            r.fails.truncate(before);
                        }
                        if res.is_err() {
                            let m = PANIC.with(|p| p.borrow().clone());
                            r.check(false, || format!("panicked: {m}"));
                        }
                    }
                    let mut o = out.lock().unwrap();
                    o.0.extend(r.fails);
                    o.1 += r.cases;
                    o.2.extend(r.distinct);
                    o.3.extend(r.samples);
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let o = out.lock().unwrap();
    for f in &o.0 {
        println!("FAIL {f}");
    }
    for s in o.3.iter().take(4) {
        let s: String = s.chars().take(380).collect();
        println!("SAMPLE {}", s.replace('\n', "\\n").replace('\r', "\\r"));
    }
    println!("STATS {{\"cases\":{},\"distinct\":{}}}", o.1, o.2.len());
    std::process::exit(if o.0.is_empty() { 0 } else { 1 });
}
