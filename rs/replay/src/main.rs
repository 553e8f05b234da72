//! Bounded search on the real crates: every property has a generator of cases; a case runs real code and
//! compares what it observes with what the contracts say. Case k of seed s is always the same.
//!   replay <PROPERTY> [--seed N] [--tier quick|thorough] [--out FILE] [--known a,b] [--only CASE]
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::json;
use std::{
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

mod access;
mod broker;
mod datastore;
mod gossip;
mod identity;
mod ids;
mod kad;
mod network;
mod node;
mod random;
mod route;
mod dhtmsgs;
mod dhtstorage;
mod realmview;
mod realmwrite;
mod router;
mod storage;
mod webproxy;

/// What a case found: `key` names the finding, so that a listed one can be told from a new one.
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub what: String,
    pub trace: Vec<String>,
}

pub struct Case {
    pub rng: StdRng,
    pub n: u64,
    pub thorough: bool,
    pub trace: Vec<String>,
    pub known: Arc<HashSet<String>>,
    pub stats: BTreeMap<&'static str, u64>,
}

impl Case {
    pub fn log(&mut self, s: impl Into<String>) {
        if self.trace.len() < 400 {
            self.trace.push(s.into());
        }
    }
    pub fn count(&mut self, s: &'static str) {
        *self.stats.entry(s).or_insert(0) += 1;
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        self.rng.gen_range(lo..=hi)
    }
    pub fn chance(&mut self, percent: u32) -> bool {
        self.rng.gen_range(0..100) < percent
    }
    pub fn fail<T>(&self, key: &str, what: impl Into<String>) -> Result<T, Fail> {
        Err(Fail { key: key.into(), what: what.into(), trace: self.trace.clone() })
    }
    pub fn check(&self, ok: bool, key: &str, what: impl FnOnce() -> String) -> Result<(), Fail> {
        if ok {
            Ok(())
        } else {
            self.fail(key, what())
        }
    }
}

pub type Res = Result<(), Fail>;
pub type Runner = fn(&mut Case) -> Res;

struct Prop {
    run: Runner,
    /// Cases are cheap and independent: run on several threads.
    threads: usize,
    max_quick: u64,
    max_thorough: u64,
    /// A case which takes longer than this has hung.
    hang: u64,
    bounds: &'static str,
}

fn prop(id: &str) -> Option<Prop> {
    let p = |run: Runner, max_quick, max_thorough, bounds| Some(Prop { run, threads: 6, max_quick, max_thorough, hang: 40, bounds });
    match id {
        "S01" | "S02" | "S03" | "S04" | "S05" => p(
            match id {
                "S01" => storage::s01,
                "S02" => storage::s02,
                "S03" => storage::s03,
                "S04" => storage::s04,
                _ => storage::s05,
            },
            4000,
            80000,
            "random storages: 1-16 Flos in up to 4 versions, up to 40 operations, space from nothing to plenty",
        ),
        "S06" => p(dhtmsgs::s06, 600, 15000, "up to 3 realms, 16 Flos and 40 messages"),
        "S07" => p(dhtmsgs::s07, 600, 15000, "up to 3 realms, 16 Flos, 40 messages, and a restart after a quarter of them"),
        "K01" => p(kad::k01, 2000, 20000, "random pairs of IDs sharing 0 to 256 bits"),
        "K02" => p(kad::k02, 20000, 400000, "tables of up to 30 nodes, k 1-4, up to 60 operations"),
        "K03" => p(kad::k03, 20000, 400000, "tables of up to 30 nodes, k 1-4, up to 60 operations, 3 destinations after each"),
        "K04" => p(kad::k04, 20000, 400000, "tables of up to 30 nodes, k 1-4, up to 60 operations, any interval and timeout up to 13"),
        "A01" => p(access::a01, 10000, 50000, "random version specifications and versions, including 0 and the largest"),
        "A02" => p(access::a02, 12000, 100000, "6 keys, conditions up to 4 levels deep, any mix of good, wrong and missing signatures"),
        "A03" => p(access::a03, 12000, 100000, "6 keys, conditions up to 4 levels deep, any subset of keys"),
        "A04" => p(access::a04, 20000, 100000, "6 keys, conditions up to 4 levels deep, up to 2 changes"),
        "A05" => p(access::a05, 12000, 100000, "6 keys, messages up to 70 bytes, signatures with a flipped bit or another length"),
        "F01" => p(access::f01, 6000, 50000, "Flos with up to 3 changes of data and condition, one forged field"),
        "F02" => p(access::f02, 4000, 50000, "Flos with up to 6 changes of data and condition, any subset of signers"),
        "F03" => p(access::f03, 4000, 50000, "Flos with up to 7 changes of data and condition, any subset of signers"),
        "F04" => p(access::f04, 6000, 50000, "objects with up to 5 changes of data and condition, any subset of signers"),
        "I01" => p(ids::i01, 6000, 100000, "random identifiers, and texts of up to 70 characters"),
        "I02" => p(ids::i02, 12000, 200000, "byte strings of up to 65540 bytes, cut into up to 4 parts"),
        "I03" => p(ids::i03, 12000, 200000, "lists of up to 8 nodes out of up to 8"),
        "G01" => p(gossip::g01, 1500, 30000, "up to 260 events of 1 to 130 nodes, arriving in any order"),
        "G02" => p(gossip::g02, 1500, 30000, "up to 40 events of up to 8 nodes"),
        "G03" => p(gossip::g03, 1500, 30000, "one node with up to 7 peers, up to 3 lives of up to 40 messages"),
        "R01" => p(random::r01, 6000, 100000, "up to 60 nodes, up to 60 operations or messages"),
        "R02" => p(random::r02, 6000, 100000, "up to 60 nodes, up to 60 operations or messages"),
        "R03" => p(random::r03, 2500, 40000, "up to 30 nodes, up to 60 messages"),
        "N01" => p(network::n01, 2500, 40000, "up to 5 nodes, up to 40 messages from any connection"),
        "N02" => p(network::n02, 2500, 40000, "up to 5 nodes, up to 40 messages from any connection"),
        "N03" => p(network::n03, 2500, 40000, "up to 5 nodes, up to 40 messages from any connection"),
        "N04" => p(network::n04, 2500, 40000, "up to 4 nodes, up to 50 messages"),
        "N05" => p(network::n05, 2500, 40000, "up to 4 nodes, up to 50 messages"),
        "N06" => p(network::n06, 240, 2400, "up to 24 clients on the loopback network, up to 24 messages, strangers and lost connections"),
        "K05" => p(route::k05, 700, 15000, "up to 13 nodes and 40 messages for one node, or 8 nodes sending to each other"),
        "X01" => p(router::x01, 1500, 40000, "up to 6 nodes and 40 messages for one router, or 10 packed messages"),
        "B01" => p(broker::b01, 3000, 80000, "one broker with up to 9 subsystems and 4 copies, up to 40 operations"),
        "D01" => p(datastore::d01, 1500, 40000, "2 or 3 storages, up to 30 operations, 19 keys, values up to 1400 bytes (240 kB when stopped)"),
        "I04" => p(identity::i04, 2000, 60000, "names of 26 kinds, all module sets, up to 3 restarts, texts with up to 4 changes"),
        "V01" => p(realmview::v01, 1500, 60000, "up to 9 blobs with up to 4 cuckoos, 9 names, paths of up to 5 parts"),
        "V02" => p(dhtstorage::v02, 900, 20000, "two realms with up to 7 Flos, or 4 keys and 4 badges in any loops, conditions of up to 3 levels"),
        "V03" => p(realmwrite::v03, 400, 10000, "one realm of 3 keys with up to 13 pages, up to 12 changes, two views"),
        "C01" => p(node::c01, 800, 20000, "up to 4 nodes, up to 25 steps of up to 4 messages at once"),
        "B02" => p(broker::b02, 3000, 80000, "up to 5 brokers with up to 10 translators, up to 8 messages"),
        "W01" => p(webproxy::w01, 1500, 30000, "up to 7 nodes, 12 requests and 40 messages, pages of up to 4000 bytes"),
        "T01" => p(node::t01, 400, 8000, "up to 5 texts of up to 3 packets, mixed and with packets of nobody in between"),
        "T02" => p(node::t02, 1200, 30000, "up to 30 events of a node's two connections"),
        _ => None,
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}

fn case_rng(seed: u64, n: u64) -> StdRng {
    StdRng::seed_from_u64(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(n.wrapping_mul(0xD1B5_4A32_D192_ED03)))
}

/// Whether a process which does what `name` says survives it: an overflow of the stack cannot be caught.
pub fn survives(name: &str) -> bool {
    let me = std::env::current_exe().unwrap();
    let s = std::process::Command::new(me).args(["--child", name]).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
    s.map(|s| s.success()).unwrap_or(false)
}

fn main() {
    if let Some(name) = arg("--child") {
        // As the threads of a node, with the stack they have.
        let h = std::thread::spawn(move || match &name[..] {
            "node" => node::deep(),
            "network" => network::deep(),
            "datastore" => datastore::child(),
            _ => false,
        });
        std::process::exit(if h.join().unwrap_or(false) { 0 } else { 3 });
    }
    let id = std::env::args().nth(1).expect("property");
    let p = prop(&id).expect("unknown property");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let known: Arc<HashSet<String>> = Arc::new(arg("--known").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect());
    let out = arg("--out");
    let only: Option<u64> = arg("--only").and_then(|s| s.parse().ok());
    let budget = Duration::from_secs(if thorough { 300 } else { 25 });
    let max = if thorough { p.max_thorough } else { p.max_quick };
    static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{} at {}", panic_text_hook(i), i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
    }));
    let start = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, Fail)>>> = Arc::new(Mutex::new(None));
    let known_hits: Arc<Mutex<BTreeMap<String, (u64, String)>>> = Default::default();
    let samples: Arc<Mutex<BTreeMap<u64, Vec<String>>>> = Default::default();
    let stats: Arc<Mutex<BTreeMap<&'static str, u64>>> = Default::default();
    let threads = if only.is_some() { 1 } else { p.threads };
    // Where each thread leaves the number of its case, when the process may not live to tell.
    let steps: Option<String> = arg("--steps");
    let running: Arc<Vec<Mutex<Option<(u64, Instant)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let mut hs = vec![];
    for t in 0..threads {
        let (next, done, stop, found, known, known_hits, samples, stats, running) =
            (next.clone(), done.clone(), stop.clone(), found.clone(), known.clone(), known_hits.clone(), samples.clone(), stats.clone(), running.clone());
        let run = p.run;
        let steps = steps.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let n = match only {
                        Some(n) => {
                            if done.load(Ordering::SeqCst) > 0 {
                                break;
                            }
                            n
                        }
                        None => next.fetch_add(1, Ordering::SeqCst),
                    };
                    if stop.load(Ordering::SeqCst) || (only.is_none() && (n >= max || start.elapsed() > budget)) {
                        break;
                    }
                    let mut c = Case { rng: case_rng(seed, n), n, thorough, trace: vec![], known: known.clone(), stats: BTreeMap::new() };
                    *running[t].lock().unwrap() = Some((n, Instant::now()));
                    if let Some(s) = &steps {
                        let _ = std::fs::write(format!("{s}.{t}"), n.to_string());
                    }
                    let r = catch_unwind(AssertUnwindSafe(|| run(&mut c)));
                    *running[t].lock().unwrap() = None;
                    let r = match r {
                        Ok(r) => r,
                        Err(e) => {
                            let l = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
                            Err(Fail { key: "panic".into(), what: format!("panic: {} ({l})", panic_text(&*e)), trace: c.trace.clone() })
                        }
                    };
                    done.fetch_add(1, Ordering::SeqCst);
                    if n < 3 {
                        samples.lock().unwrap().insert(n, c.trace.iter().take(40).cloned().collect());
                    }
                    {
                        let mut s = stats.lock().unwrap();
                        for (k, v) in c.stats {
                            *s.entry(k).or_insert(0) += v;
                        }
                    }
                    if let Err(f) = r {
                        if known.contains(&f.key) {
                            known_hits.lock().unwrap().entry(f.key.clone()).or_insert((n, f.what.clone()));
                            continue;
                        }
                        let mut g = found.lock().unwrap();
                        if g.as_ref().map(|(m, _)| n < *m).unwrap_or(true) {
                            *g = Some((n, f));
                        }
                        stop.store(true, Ordering::SeqCst);
                    }
                })
                .unwrap(),
        );
    }
    // A case that does not come back is a finding as well.
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut hung = None;
        for r in running.iter() {
            if let Some((n, s)) = *r.lock().unwrap() {
                if s.elapsed() > Duration::from_secs(p.hang) {
                    hung = Some(n);
                }
            }
        }
        if memory() > 6 << 30 {
            let oldest = running.iter().filter_map(|r| *r.lock().unwrap()).min_by_key(|(_, s)| *s);
            if let Some((n, _)) = oldest {
                let mut g = found.lock().unwrap();
                if g.is_none() {
                    *g = Some((n, Fail { key: "memory".into(), what: format!("case {n} takes more than 6 GB of memory"), trace: vec![] }));
                }
                break;
            }
        }
        if let Some(n) = hung {
            let mut g = found.lock().unwrap();
            if g.is_none() {
                *g = Some((n, Fail { key: "hang".into(), what: format!("case {n} did not finish within {} s", p.hang), trace: vec![] }));
            }
            break;
        }
    }
    let found = found.lock().unwrap().clone();
    let samples = samples.lock().unwrap().clone();
    let j = json!({
        "explored": done.load(Ordering::SeqCst),
        "bounds": p.bounds,
        "wall_s": start.elapsed().as_secs_f64(),
        "stats": *stats.lock().unwrap(),
        "known_reproduced": known_hits.lock().unwrap().iter().map(|(k, v)| json!({"id": k, "case": v.0, "what": v.1})).collect::<Vec<_>>(),
        "samples": samples.iter().map(|(n, t)| json!({"case": n, "trace": t})).collect::<Vec<_>>(),
        "violation": found.as_ref().map(|(n, f)| json!({"case": n, "key": f.key, "what": f.what, "trace": f.trace})),
    });
    if let Some(o) = out {
        std::fs::write(o, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    } else {
        println!("{}", serde_json::to_string_pretty(&j).unwrap());
    }
    std::process::exit(if found.is_some() { 1 } else { 0 });
}

fn panic_text_hook(i: &std::panic::PanicHookInfo) -> String {
    i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}

/// The memory this process holds, in bytes.
fn memory() -> usize {
    let m = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    m.split(' ').nth(1).and_then(|p| p.parse::<usize>().ok()).unwrap_or(0) * 4096
}
