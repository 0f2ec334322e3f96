//! Exploration framework: deterministic case enumeration, sharded over worker
//! processes; crash/hang of a worker is attributed to the case it was running.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub const SHM: usize = 1 << 16;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Progress { ptr: *mut u8 }
impl Progress {
    pub fn open(path: &str) -> Progress {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(SHM as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), SHM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Progress { ptr: p as *mut u8 }
    }
    pub fn set(&self, idx: u64, desc: &str) {
        let b = desc.as_bytes();
        let n = b.len().min(SHM - 32);
        unsafe {
            (self.ptr.add(8) as *mut u64).write_volatile(n as u64);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.ptr.add(24), n);
            (self.ptr as *mut u64).write_volatile(idx + 1);
        }
    }
    pub fn tick(&self, t: u64) { unsafe { (self.ptr.add(16) as *mut u64).write_volatile(t) } }
    pub fn get(&self) -> (u64, u64, String) {
        unsafe {
            let i = (self.ptr as *mut u64).read_volatile();
            let n = (self.ptr.add(8) as *mut u64).read_volatile() as usize;
            let t = (self.ptr.add(16) as *mut u64).read_volatile();
            let s = std::slice::from_raw_parts(self.ptr.add(24), n.min(SHM - 32));
            (i, t, String::from_utf8_lossy(s).to_string())
        }
    }
}

#[derive(Clone)]
pub struct Viol { pub key: String, pub case: u64, pub desc: String, pub detail: Value }

pub struct Rec {
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub start: u64,
    pub only: Option<u64>,
    pub scratch: PathBuf,
    idx: u64,
    cur: u64,
    cur_desc: String,
    progress: Option<Progress>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    pub nviol: u64,
    viol_keys: HashSet<String>,
    sub: u64,
    pub verbose: bool,
    pub violfile: Option<PathBuf>,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Rec {
    pub fn new(tier: Tier, shard: u64, nshards: u64, start: u64, only: Option<u64>, scratch: PathBuf, progress: Option<Progress>) -> Rec {
        Rec { tier, shard, nshards, start, only, scratch, idx: 0, cur: 0, cur_desc: String::new(), progress, evals: 0, distinct: HashSet::new(), states: HashSet::new(),
            samples: vec![], counters: BTreeMap::new(), viols: vec![], nviol: 0, viol_keys: HashSet::new(), sub: 0, verbose: only.is_some(), violfile: None }
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    /// Is the next case of the enumeration this worker's? Must be called exactly once per case, in the same order everywhere.
    pub fn next(&mut self) -> bool {
        let i = self.idx;
        self.idx += 1;
        if let Some(o) = self.only { return i == o && { self.cur = i; true }; }
        if i % self.nshards != self.shard || i < self.start || self.nviol > 400 { return false; }
        self.cur = i;
        true
    }
    /// Announce the current case before executing it.
    pub fn begin(&mut self, desc: impl FnOnce() -> String) {
        let d = desc();
        if let Some(p) = &self.progress { p.set(self.cur, &d); }
        if self.verbose { eprintln!("case {}: {}", self.cur, d); }
        if self.cur < 3 || (self.samples.len() < 4 && self.cur % 97 == 5) {
            if self.samples.len() < 8 { self.samples.push(json!({"case": self.cur, "what": d})); }
        }
        self.cur_desc = d;
        self.sub = 0;
    }
    /// as `begin`, for cases whose numbers were consumed in advance
    pub fn begin_at(&mut self, no: u64, desc: impl FnOnce() -> String) { self.cur = no; self.begin(desc) }
    pub fn idx_even(&self) -> bool { self.cur % 2 == 0 }
    pub fn tier_thorough(&self) -> bool { self.thorough() }
    pub fn position(&self) -> u64 { self.idx }
    pub fn state(&mut self, h: u64) { self.states.insert(h); }
    pub fn tick(&mut self) {
        self.sub += 1;
        if let Some(p) = &self.progress { p.tick(self.sub + (self.evals << 8)); }
    }
    /// One evaluated execution; `class` identifies its observable outcome/content, None = trivial.
    pub fn eval(&mut self, class: Option<u64>) {
        self.evals += 1;
        if self.evals & 0xff == 0 { if let Some(p) = &self.progress { p.tick(self.evals << 8); } }
        if let Some(c) = class { self.distinct.insert(c); }
    }
    pub fn count(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_insert(0) += n; }
    pub fn maxc(&mut self, k: &str, n: u64) { let e = self.counters.entry(format!("max_{k}")).or_insert(0); if *e < n { *e = n } }
    pub fn sample(&mut self, v: Value) { if self.samples.len() < 8 { self.samples.push(v); } }
    pub fn viol(&mut self, key: impl Into<String>, detail: Value) {
        let key = key.into();
        if self.verbose { eprintln!("  violation key={} detail={}", key, serde_json::to_string_pretty(&detail).unwrap()); }
        if self.viol_keys.insert(key.clone()) {
            self.nviol += 1;
            if let Some(p) = &self.violfile {
                use std::io::Write;
                if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
                    let _ = writeln!(f, "{}", json!({"key": key, "case": self.cur, "desc": self.cur_desc, "detail": detail}));
                }
            }
            self.viols.push(Viol { key, case: self.cur, desc: self.cur_desc.clone(), detail });
        }
    }
    pub fn to_json(&self) -> Value {
        json!({
            "evals": self.evals,
            "distinct": self.distinct.iter().collect::<Vec<_>>(),
            "states": self.states.iter().collect::<Vec<_>>(),
            "samples": self.samples,
            "counters": self.counters,
            "cases": self.idx,
        })
    }
}

pub struct CheckDef {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Rec),
    /// environment for the workers (e.g. LD_PRELOAD)
    pub preload: Option<&'static str>,
    pub workers: usize,
    pub hang_s: u64,
}

fn scratch_root() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(d).join(format!("vx-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() { return p; }
    }
    panic!("no scratch directory");
}

fn spawn_worker(def: &CheckDef, tier: Tier, shard: u64, n: u64, start: u64, root: &PathBuf, only: Option<u64>) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let dir = root.join(format!("w{shard}"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut c = std::process::Command::new(exe);
    c.arg("worker").arg(def.id).arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .arg(shard.to_string()).arg(n.to_string()).arg(start.to_string())
        .arg(root.join(format!("out{shard}-{start}.json"))).arg(root.join(format!("prog{shard}"))).arg(&dir);
    if let Some(o) = only { c.arg(o.to_string()); }
    let target = verif_dir().join("target");
    let mut pre = vec![target.join("fast.so").display().to_string()];
    if let Some(p) = def.preload { pre.push(target.join(p).display().to_string()); }
    c.env("LD_PRELOAD", pre.join(":"));
    if only.is_none() {
        let err = std::fs::OpenOptions::new().create(true).append(true).open(root.join(format!("err{shard}"))).unwrap();
        c.stderr(err);
        c.stdout(std::process::Stdio::null());
    }
    c.spawn().unwrap()
}

pub struct KnownFinding { pub property: String, pub key: String, pub what: String }

pub fn load_known() -> Vec<KnownFinding> {
    let mut v = vec![];
    let txt = std::fs::read_to_string(verif_dir().join("known_findings.jsonl")).unwrap_or_default();
    for l in txt.lines() {
        if l.trim().is_empty() { continue; }
        let j: Value = serde_json::from_str(l).expect("known_findings.jsonl");
        if j.get("key").is_none() { continue; } // fixed: entries suppress nothing
        v.push(KnownFinding { property: j["property"].as_str().unwrap().into(), key: j["key"].as_str().unwrap().into(), what: j["what"].as_str().unwrap().into() });
    }
    v
}

pub fn verif_dir() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())) }

pub fn run_check(def: &CheckDef, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let root = scratch_root();
    let n = def.workers as u64;
    struct W { child: Option<std::process::Child>, start: u64, prog: Progress, last: (u64, u64), last_t: Instant, outs: Vec<PathBuf>, restarts: u32, failed: bool }
    let mut ws: Vec<W> = vec![];
    for s in 0..n {
        let prog = Progress::open(root.join(format!("prog{s}")).to_str().unwrap());
        let child = spawn_worker(def, tier, s, n, 0, &root, None);
        ws.push(W { child: Some(child), start: 0, prog, last: (0, 0), last_t: Instant::now(), outs: vec![root.join(format!("out{s}-0.json"))], restarts: 0, failed: false });
    }
    let mut viols: Vec<Value> = vec![];
    let mut engine_err: Option<String> = None;
    loop {
        let mut alive = false;
        for s in 0..ws.len() {
            let w = &mut ws[s];
            let Some(ch) = w.child.as_mut() else { continue };
            let mut bad: Option<String> = None;
            match ch.try_wait().unwrap() {
                Some(st) => {
                    if st.success() { w.child = None; continue; }
                    bad = Some(format!("worker died: {st}"));
                }
                None => {
                    alive = true;
                    let (i, t, _) = w.prog.get();
                    if (i, t) != w.last { w.last = (i, t); w.last_t = Instant::now(); }
                    if t0.elapsed() > Duration::from_secs(840) && tier == Tier::Quick {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        w.child = None;
                        engine_err = Some("time limit of the quick tier".into());
                        continue;
                    }
                    if w.last_t.elapsed() > Duration::from_secs(def.hang_s) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        bad = Some(format!("no progress for {} s (hang)", def.hang_s));
                    }
                }
            }
            if let Some(b) = bad {
                alive = true;
                let (i, _, desc) = w.prog.get();
                let errf = std::fs::read_to_string(root.join(format!("err{s}"))).unwrap_or_default();
                let tail: String = errf.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
                if i == 0 || i <= w.start {
                    engine_err = Some(format!("worker {s} failed before its first case: {b}\n{tail}"));
                    w.child = None;
                    w.failed = true;
                    continue;
                }
                viols.push(json!({"key": format!("crash:{desc}"), "case": i - 1, "desc": desc, "detail": {"crash": b, "stderr": tail}}));
                w.restarts += 1;
                if b.contains("hang") || w.restarts > 25 || t0.elapsed() > Duration::from_secs(600) { w.child = None; continue; }
                w.start = i;
                w.last_t = Instant::now();
                let p = root.join(format!("out{s}-{i}.json"));
                w.outs.push(p);
                w.child = Some(spawn_worker(def, tier, s as u64, n, i, &root, None));
            }
        }
        if !alive { break; }
        std::thread::sleep(Duration::from_millis(15));
    }
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut cases = 0u64;
    for w in &ws {
        for o in &w.outs {
            if let Ok(t) = std::fs::read_to_string(o.with_extension("viol")) {
                for l in t.lines() { if let Ok(v) = serde_json::from_str::<Value>(l) { viols.push(v); } }
            }
            let Ok(t) = std::fs::read_to_string(o) else { continue };
            let j: Value = match serde_json::from_str(&t) { Ok(j) => j, Err(_) => continue };
            evals += j["evals"].as_u64().unwrap();
            cases = cases.max(j["cases"].as_u64().unwrap());
            for d in j["distinct"].as_array().unwrap() { distinct.insert(d.as_u64().unwrap()); }
            for d in j["states"].as_array().unwrap() { states.insert(d.as_u64().unwrap()); }
            for x in j["samples"].as_array().unwrap() { if samples.len() < 6 { samples.push(x.clone()); } }
            for (k, v) in j["counters"].as_object().unwrap() {
                let v = v.as_u64().unwrap();
                let e = counters.entry(k.clone()).or_insert(0);
                if k.starts_with("max_") { *e = (*e).max(v) } else { *e += v }
            }
        }
    }
    viols.sort_by_key(|v| v["case"].as_u64().unwrap());
    // partition into known findings and violations
    let known = load_known();
    let mut seen_known: Vec<&KnownFinding> = vec![];
    let mut fresh: Vec<&Value> = vec![];
    for v in &viols {
        let k = v["key"].as_str().unwrap();
        match known.iter().find(|f| f.property == def.id && f.key == k) {
            Some(f) => seen_known.push(f),
            None => fresh.push(v),
        }
    }
    for f in &seen_known { println!("KNOWN-FINDING: property={} {} [{}]", def.id, f.what, f.key); }
    let rdir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut shown = HashSet::new();
    for v in &fresh {
        if shown.len() >= 20 { break; }
        let k = v["key"].as_str().unwrap();
        if !shown.insert(k.to_string()) { continue; }
        let path = rdir.join(format!("{}-{:016x}.json", def.id, h64(k)));
        let body = json!({"property": def.id, "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "case": v["case"], "key": k, "desc": v["desc"], "detail": v["detail"],
            "replay": format!("/verif/bin/replay.sh {}", path.display())});
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("VIOLATION property={} replay={}", def.id, path.display());
        let d = v["detail"].to_string();
        println!("  {} :: {}", k.chars().take(300).collect::<String>(), d.chars().take(700).collect::<String>());
    }
    let wall = t0.elapsed().as_secs_f64();
    if !states.is_empty() { counters.insert("states".into(), states.len() as u64); }
    let mut cov = json!({
        "evaluations": evals,
        "distinct_nontrivial": distinct.len(),
        "cases_enumerated": cases,
        "rule": def.rule,
        "samples": samples,
        "exhaustive": fresh.is_empty() && engine_err.is_none(),
        "known_findings_hit": seen_known.len(),
    });
    for (k, v) in &counters { cov[k] = json!(v); }
    let ev = json!({
        "property": def.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": def.level,
        "coverage": cov,
        "assumptions": def.assumptions,
        "wall_s": wall,
        "violations": fresh.len(),
    });
    let edir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{}.json", def.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&root);
    println!("{}: cases={} evaluations={} distinct={} counters={:?} known={} violations={} wall={:.1}s", def.id, cases, evals, distinct.len(), counters, seen_known.len(), fresh.len(), wall);
    if let Some(e) = engine_err { if fresh.is_empty() { eprintln!("ENGINE ERROR: {e}"); return 2; } }
    if !fresh.is_empty() { return 1; }
    if evals == 0 { eprintln!("ENGINE ERROR: nothing was explored"); return 2; }
    0
}

pub fn run_worker(def: &CheckDef, args: &[String]) {
    // args: tier shard n start out prog scratch [only]
    let tier = if args[0] == "quick" { Tier::Quick } else { Tier::Thorough };
    let only = args.get(7).map(|s| s.parse().unwrap());
    let prog = Progress::open(&args[5]);
    let mut rec = Rec::new(tier, args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap(), only, PathBuf::from(&args[6]), Some(prog));
    rec.violfile = Some(PathBuf::from(&args[4]).with_extension("viol"));
    (def.run)(&mut rec);
    std::fs::write(&args[4], serde_json::to_string(&rec.to_json()).unwrap()).unwrap();
}

pub fn replay(def: &CheckDef, file: &str) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let tier = if j["tier"] == "quick" { Tier::Quick } else { Tier::Thorough };
    let root = scratch_root();
    let mut ch = spawn_worker(def, tier, 0, 1, 0, &root, j["case"].as_u64());
    let st = ch.wait().unwrap();
    let out = std::fs::read_to_string(root.join("out0-0.viol")).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&root);
    if !st.success() { println!("VIOLATION property={} replay={file}", def.id); return 1; }
    let again = out.lines().any(|l| serde_json::from_str::<Value>(l).map(|v| v["key"] == j["key"]).unwrap_or(false));
    if again { println!("VIOLATION property={} replay={file}", def.id); 1 } else { println!("not reproduced on this tree"); 0 }
}
