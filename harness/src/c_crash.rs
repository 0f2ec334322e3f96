//! Crashes (P01, P02): every point of the storage operations of a history, every loss of
//! unsynced data; and storage faults (P26).
use crate::rec::*;
use crate::seq::*;
use crate::util::*;
use bson::{doc, Bson};
use polodb_core::Database;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::{CStr, CString};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub fn register(v: &mut Vec<CheckDef>) {
    let d = |id, run: fn(&mut Rec), rule| CheckDef { id, level: "model_checking", rule, assumptions: &["the directory of the database itself is not lost", "a synced file keeps its data, and a synced directory its entries; anything else may be lost or torn, entries in order"], run, preload: Some("fsx.so"), workers: 8, hang_s: 90 };
    v.push(d("P01", durable, "distinct crash images of a history opened again"));
    v.push(d("P02", atomic, "distinct crash images of a history opened again"));
}

// ---------------------------------------------------------------- recording

#[derive(Clone, Debug)]
pub enum Fs { Create(String), Write(String, u64, Vec<u8>), Trunc(String, u64), Rename(String, String), Unlink(String), Mkdir(String), Sync(String), Mark(usize) }
static LOG: Mutex<Vec<Fs>> = Mutex::new(vec![]);
static ROOT: Mutex<String> = Mutex::new(String::new());

extern "C" fn logger(kind: i32, p: *const libc::c_char, p2: *const libc::c_char, off: u64, d: *const u8, n: u64) {
    let root = ROOT.lock().unwrap().clone();
    let rel = |p: *const libc::c_char| -> String { let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().to_string(); s.strip_prefix(&root).unwrap_or(&s).trim_start_matches('/').to_string() };
    let a = rel(p);
    let op = match kind {
        2 => Fs::Create(a),
        4 => Fs::Write(a, off, unsafe { std::slice::from_raw_parts(d, n as usize) }.to_vec()),
        8 => Fs::Sync(a),
        16 => Fs::Rename(a, rel(p2)),
        32 => Fs::Unlink(a),
        64 => Fs::Mkdir(a),
        128 => Fs::Trunc(a, off),
        _ => return,
    };
    LOG.lock().unwrap().push(op);
}
macro_rules! sym { ($name:literal, $t:ty) => { unsafe { let p = libc::dlsym(libc::RTLD_DEFAULT, concat!($name, "\0").as_ptr().cast()); assert!(!p.is_null(), "the recorder is not loaded"); std::mem::transmute::<*mut libc::c_void, $t>(p) } } }
type Logger = extern "C" fn(i32, *const libc::c_char, *const libc::c_char, u64, *const u8, u64);
pub fn record(root: Option<&Path>) {
    let f = sym!("vxf_root", extern "C" fn(*const libc::c_char, Option<Logger>));
    match root {
        Some(p) => { LOG.lock().unwrap().clear(); *ROOT.lock().unwrap() = p.display().to_string(); let c = CString::new(p.display().to_string()).unwrap(); f(c.as_ptr(), Some(logger)); }
        None => f(std::ptr::null(), None),
    }
}
pub fn fail(mask: i32, n: i64, err: i32, sticky: bool, torn: bool) { sym!("vxf_fail", extern "C" fn(i32, i64, i32, i32, i32))(mask, n, err, sticky as i32, torn as i32) }
pub fn op_count() -> i64 { sym!("vxf_count", extern "C" fn() -> i64)() }
pub fn fired() -> i32 { sym!("vxf_fired", extern "C" fn() -> i32)() }
fn mark(k: usize) { LOG.lock().unwrap().push(Fs::Mark(k)); }

// ---------------------------------------------------------------- the file system after a crash

#[derive(Clone, Default)]
struct Inode { data: Vec<u8>, durable: Vec<u8>, pending: Vec<(u64, Option<Vec<u8>>)> }
#[derive(Clone)]
enum NameOp { Add(String, usize), Move(String, String), Del(String) }
#[derive(Clone, Default)]
pub struct Vfs { inodes: Vec<Inode>, names: BTreeMap<String, usize>, dnames: BTreeMap<String, usize>, nops: Vec<NameOp> }
pub type Image = BTreeMap<String, Vec<u8>>;

fn put(d: &mut Vec<u8>, off: u64, b: &Option<Vec<u8>>) {
    let off = off as usize;
    match b { None => d.resize(off, 0), Some(b) => { if d.len() < off + b.len() { d.resize(off + b.len(), 0); } d[off..off + b.len()].copy_from_slice(b); } }
}
fn name_op(m: &mut BTreeMap<String, usize>, o: &NameOp) {
    match o { NameOp::Add(n, i) => { m.insert(n.clone(), *i); } NameOp::Move(a, b) => { if let Some(i) = m.remove(a) { m.insert(b.clone(), i); } } NameOp::Del(n) => { m.remove(n); } }
}
impl Vfs {
    pub fn of(img: &Image) -> Vfs {
        let mut v = Vfs::default();
        for (n, d) in img { v.names.insert(n.clone(), v.inodes.len()); v.inodes.push(Inode { data: d.clone(), durable: d.clone(), pending: vec![] }); }
        v.dnames = v.names.clone();
        v
    }
    fn name(&mut self, o: NameOp) { name_op(&mut self.names, &o); self.nops.push(o); }
    pub fn apply(&mut self, op: &Fs) {
        match op {
            Fs::Create(n) => { let i = self.inodes.len(); self.inodes.push(Inode::default()); self.name(NameOp::Add(n.clone(), i)); }
            Fs::Write(n, off, b) => if let Some(i) = self.names.get(n) { let x = &mut self.inodes[*i]; let w = Some(b.clone()); put(&mut x.data, *off, &w); x.pending.push((*off, w)); },
            Fs::Trunc(n, len) => if let Some(i) = self.names.get(n) { let x = &mut self.inodes[*i]; put(&mut x.data, *len, &None); x.pending.push((*len, None)); },
            Fs::Rename(a, b) => self.name(NameOp::Move(a.clone(), b.clone())),
            Fs::Unlink(n) => self.name(NameOp::Del(n.clone())),
            Fs::Sync(n) => match self.names.get(n) {
                Some(i) => { let x = &mut self.inodes[*i]; x.durable = x.data.clone(); x.pending.clear(); }
                None => { self.dnames = self.names.clone(); self.nops.clear(); }
            },
            Fs::Mkdir(_) | Fs::Mark(_) => {}
        }
    }
    fn now(&self) -> Image { self.names.iter().map(|(n, i)| (n.clone(), self.inodes[*i].data.clone())).collect() }
    /// what the process leaves if it stops here, in the middle of the last write included
    pub fn process_crash(&self, last: &Fs) -> Vec<(String, Image)> {
        let mut out = vec![("process".to_string(), self.now())];
        if let Fs::Write(n, off, b) = last {
            if let Some(i) = self.names.get(n) {
                for k in cuts(b.len()) {
                    let mut img = self.now();
                    // the bytes were appended, or they replace what is not known any more
                    if *off as usize + b.len() == self.inodes[*i].data.len() { img.get_mut(n).unwrap().truncate(*off as usize + k); out.push((format!("process, {k} of {} bytes", b.len()), img)); }
                }
            }
        }
        out
    }
    /// what the machine may leave if it stops here
    pub fn machine_crash(&self, cap: usize) -> (Vec<(String, Image)>, bool) {
        let mut out = vec![];
        let mut capped = false;
        let mut names = self.dnames.clone();
        for k in 0..=self.nops.len() {
            if k > 0 { name_op(&mut names, &self.nops[k - 1]); }
            // every file with unsynced data, independently: none of it, each prefix of the writes, the last torn or blank, all
            let mut combos: Vec<Image> = vec![Image::new()];
            for (n, i) in &names {
                let x = &self.inodes[*i];
                let mut opts: Vec<Vec<u8>> = vec![x.durable.clone()];
                let mut d = x.durable.clone();
                let m = x.pending.len();
                for (j, (off, b)) in x.pending.iter().enumerate() {
                    if j + 1 == m { if let Some(b) = b {
                        for c in cuts(b.len()) { let mut e = d.clone(); put(&mut e, *off, &Some(b[..c].to_vec())); opts.push(e); }
                        let mut e = d.clone(); put(&mut e, *off, &Some(vec![0; b.len()])); opts.push(e);
                    } }
                    put(&mut d, *off, b);
                    if m - j <= 3 { opts.push(d.clone()); }
                }
                if combos.len() * opts.len() > cap { capped = true; opts = vec![opts[0].clone(), opts[opts.len() - 1].clone()]; }
                combos = combos.into_iter().flat_map(|c| opts.iter().map(move |o| { let mut c = c.clone(); c.insert(n.clone(), o.clone()); c }).collect::<Vec<_>>()).collect();
            }
            for c in combos { out.push((format!("machine, {k} of {} pending entries", self.nops.len()), c)); }
        }
        (out, capped)
    }
}
fn cuts(n: usize) -> Vec<usize> { let mut v: Vec<usize> = [1, 7, n / 2, n.saturating_sub(1)].into_iter().filter(|k| *k > 0 && *k < n).collect(); v.sort(); v.dedup(); v }

fn image_hash(img: &Image) -> u64 { h64(img) }
pub fn write_image(img: &Image, p: &Path) { std::fs::create_dir_all(p).unwrap(); for (n, d) in img { let f = p.join(n); if let Some(x) = f.parent() { std::fs::create_dir_all(x).unwrap(); } std::fs::write(f, d).unwrap(); } }
pub fn read_image(p: &Path) -> Image {
    let mut m = Image::new();
    for e in std::fs::read_dir(p).unwrap().flatten() { let n = e.file_name().to_string_lossy().to_string(); if !n.starts_with("LOG") && e.path().is_file() { m.insert(n, std::fs::read(e.path()).unwrap()); } }
    m
}

// ---------------------------------------------------------------- what an opened image holds

const COLLS: [&str; 3] = ["k", "m", "new"];
#[derive(Clone, Debug, PartialEq)]
pub struct Seen { pub state: State, pub names: Vec<String>, /// is a second document with the value of this one accepted
    pub dup: Vec<(String, String, bool)> }
fn fields() -> Vec<(&'static str, Vec<Bson>)> { vec![("a", (1..=6).map(Bson::Int32).collect()), ("b", vec![Bson::Int32(1), Bson::Int32(2)])] }

pub fn expected(m: &MDb) -> Seen {
    let mut dup = vec![];
    for (c, x) in &m.colls {
        for f in ["a", "b"] {
            if let Some(d) = x.docs.values().find(|d| d.contains_key(f)) {
                let mut y = x.clone();
                dup.push((c.clone(), f.to_string(), y.insert(&doc! {"_id": "dup", f: d.get(f).unwrap().clone()}).is_ok()));
            }
        }
    }
    Seen { state: nonempty(mstate(m)), names: m.colls.keys().cloned().collect(), dup }
}
fn sorted_names(db: &Database) -> Result<Vec<String>, Value> { match call(|| db.list_collection_names()) { Out::Ok(mut v) => { v.sort(); Ok(v) } x => Err(json!({"list_collection_names": format!("{x:?}")})) } }

pub fn observe(db: &Database) -> Result<Seen, Value> {
    let t = Target { db, txn: None, prefix: String::new() };
    let state = t.state(&COLLS).map_err(|e| json!({"problem": e}))?;
    let names = sorted_names(db)?;
    let mut dup = vec![];
    for c in &names {
        let col = t.coll(c);
        let all = match col.all() { Out::Ok(v) => v, x => return Err(json!({"find": format!("{x:?}")})) };
        match col.count() { Out::Ok(n) if n == all.len() as u64 => {}, x => return Err(json!({"count_documents": format!("{x:?}"), "documents": all.len()})) }
        for (f, vals) in fields() {
            for v in vals {
                let q = doc! {f: v.clone()};
                let want: BTreeSet<String> = all.iter().filter(|d| crate::model::matches(d, &q).unwrap_or(false)).map(rsorted).collect();
                match col.find(&q) {
                    Out::Ok(ds) if ds.len() == want.len() && ds.iter().map(rsorted).collect::<BTreeSet<_>>() == want => {}
                    x => return Err(json!({"problem": format!("{c}.find({q}) disagrees with the documents"), "got": format!("{x:?}"), "expected": want})),
                }
            }
        }
        // the document by which the model would decide: the first by identity
        let mut sorted = all.clone();
        sorted.sort_by_key(|d| crate::model::idkey(d.get("_id").unwrap()));
        for f in ["a", "b"] {
            if let Some(d) = sorted.iter().find(|d| d.contains_key(f)) {
                let ok = match col.insert(&doc! {"_id": "dup", f: d.get(f).unwrap().clone()}) { Out::Ok(_) => true, Out::Err(_) => false, Out::Panic(e) => return Err(json!({"panic": e})) };
                if ok { match col.delete(false, &doc! {"_id": "dup"}) { Out::Ok(1) => {}, x => return Err(json!({"delete after reopening": format!("{x:?}")})) } }
                dup.push((c.clone(), f.to_string(), ok));
            }
        }
    }
    Ok(Seen { state, names, dup })
}
/// open an image, look at everything, write something, and open it once more
pub fn open_image(img: &Image, path: &Path, twice: bool) -> Result<Seen, Value> {
    write_image(img, path);
    let p = path.to_path_buf();
    let r = (|| {
        let db = match call(|| Database::open_path(&p)) { Out::Ok(d) => d, x => return Err(json!({"problem": "the database cannot be opened", "got": format!("{:?}", x.map(|_| ()))})) };
        let seen = observe(&db)?;
        if twice {
            match Coll::auto(&db, "late").insert(&doc! {"_id": 1}) { Out::Ok(_) => {}, x => return Err(json!({"insert after reopening": format!("{x:?}")})) }
            drop(db);
            let db = match call(|| Database::open_path(&p)) { Out::Ok(d) => d, x => return Err(json!({"problem": "the database cannot be opened a second time", "got": format!("{:?}", x.map(|_| ()))})) };
            let t = Target { db: &db, txn: None, prefix: String::new() };
            let st = t.state(&COLLS).map_err(|e| json!({"second opening": e}))?;
            if st != seen.state { return Err(json!({"second opening": format!("{st:?}"), "first": format!("{:?}", seen.state)})); }
            if Coll::auto(&db, "late").count() != Out::Ok(1) { return Err(json!({"second opening": "a document inserted after the crash is gone"})); }
        }
        Ok(seen)
    })();
    let _ = std::fs::remove_dir_all(path);
    r
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Debug)]
enum Step { Op(Op), /// statements of a transaction, a statement outside meanwhile, and the end
    Txn(Vec<Op>, Option<Op>, bool), /// two transactions, the second commits first
    Two(Vec<Op>, Vec<Op>), Reopen }
impl Step {
    fn text(&self) -> String {
        let j = |v: &[Op]| v.iter().map(|o| o.text()).collect::<Vec<_>>().join("; ");
        match self {
            Step::Op(o) => o.text(), Step::Reopen => "reopen".into(),
            Step::Txn(v, m, c) => format!("txn[{}]{}{}", j(v), m.as_ref().map(|o| format!("({} outside)", o.text())).unwrap_or_default(), if *c { "commit" } else { "rollback" }),
            Step::Two(a, b) => format!("txn[{}] with txn[{}], second commits first", j(a), j(b)),
        }
    }
}

struct Case { images: HashMap<u64, Result<Seen, Value>>, }

/// run a history with the recorder on; returns the log and, for every mark, the states allowed from there on
fn run_history(path: &PathBuf, steps: &[Step]) -> Result<(Vec<Fs>, Vec<Vec<MDb>>, usize), Value> {
    let mut marks: Vec<Vec<MDb>> = vec![];
    let mut m = MDb::default();
    let mut put = |s: Vec<MDb>| { marks.push(s); mark(marks.len() - 1); };
    record(Some(path));
    put(vec![m.clone()]);
    let r = (|| -> Result<usize, Value> {
        let mut db = Some(Database::open_path(path).map_err(|e| json!({"open": e.to_string()}))?);
        let mut last = 0;
        if !steps.is_empty() {
            for c in ["k", "m"] {
                let op = Op::CreateColl(c);
                put(std::iter::once(m.clone()).chain(model_step(&m, &op).into_iter().map(|x| x.0)).collect());
                m = step_only(&Target { db: db.as_ref().unwrap(), txn: None, prefix: String::new() }, &m, &op, false)?;
                put(vec![m.clone()]);
            }
        }
        for (i, s) in steps.iter().enumerate() {
            if i + 1 == steps.len() { last = LOG.lock().unwrap().len(); }
            match s {
                Step::Op(op) => {
                    let t = Target { db: db.as_ref().unwrap(), txn: None, prefix: String::new() };
                    put(std::iter::once(m.clone()).chain(model_step(&m, op).into_iter().map(|x| x.0)).collect());
                    m = step_only(&t, &m, op, false)?;
                    put(vec![m.clone()]);
                }
                Step::Reopen => { db = None; let d = Database::open_path(path).map_err(|e| json!({"open": e.to_string()}))?; db = Some(d); }
                Step::Txn(body, mid, commit) => {
                    let d = db.as_ref().unwrap();
                    let txn = d.start_transaction().map_err(|e| json!({"start": e.to_string()}))?;
                    let mut ops = vec![];
                    let mut view = m.clone();
                    for op in body { view = step_only(&Target { db: d, txn: Some(&txn), prefix: String::new() }, &view, op, false)?; ops.push(op); }
                    if let Some(op) = mid {
                        put(std::iter::once(m.clone()).chain(model_step(&m, op).into_iter().map(|x| x.0)).collect());
                        m = step_only(&Target { db: d, txn: None, prefix: String::new() }, &m, op, true)?;
                        put(vec![m.clone()]);
                    }
                    if *commit {
                        let mut n = m.clone();
                        for op in ops { n = model_step(&n, op)[0].0.clone(); }
                        put(vec![m.clone(), n.clone()]);
                        match call(|| txn.commit()) { Out::Ok(()) => m = n, x => return Err(json!({"commit": format!("{x:?}")})) }
                        put(vec![m.clone()]);
                    } else if let x @ (Out::Err(_) | Out::Panic(_)) = call(|| txn.rollback()) { return Err(json!({"rollback": format!("{x:?}")})); }
                }
                Step::Two(a, b) => {
                    let d = db.as_ref().unwrap();
                    let ts = [d.start_transaction().unwrap(), d.start_transaction().unwrap()];
                    let base = m.clone();
                    let mut done: Vec<Vec<&Op>> = vec![];
                    for (t, body) in ts.iter().zip([a, b]) {
                        let mut v = base.clone();
                        let mut ok = vec![];
                        for op in body { let n = step_only(&Target { db: d, txn: Some(t), prefix: String::new() }, &v, op, true)?; if mstate(&n) != mstate(&v) { ok.push(op); } v = n; }
                        done.push(ok);
                    }
                    for (t, body) in [(&ts[1], &done[1]), (&ts[0], &done[0])] {
                        let mut n = m.clone();
                        for op in body { n = model_step(&n, op)[0].0.clone(); }
                        put(vec![m.clone(), n.clone()]);
                        match call(|| t.commit()) { Out::Ok(()) => m = n, x => return Err(json!({"commit": format!("{x:?}")})) }
                        put(vec![m.clone()]);
                    }
                }
            }
        }
        // closing the database may write as well
        drop(db);
        Ok(last)
    })();
    record(None);
    let log = std::mem::take(&mut *LOG.lock().unwrap());
    let last = r?;
    Ok((log, marks, last))
}
fn step_only(t: &Target, m: &MDb, op: &Op, wait: bool) -> Result<MDb, Value> {
    let alts = model_step(m, op);
    let got = t.exec(op);
    // kept waiting by the other transaction: nothing has happened
    if wait { if let Out::Err(e) = &got { if e.contains("Timeout") { return Ok(m.clone()); } } }
    match alts.iter().find(|(_, e)| agrees(e, &got)) { Some(x) => Ok(x.0.clone()), None => Err(json!({"operation": op.text(), "expected": format!("{:?}", alts.iter().map(|a| a.1.clone()).collect::<Vec<_>>()), "got": format!("{got:?}")})) }
}

fn describe(op: &Fs) -> String {
    match op { Fs::Write(n, o, b) => format!("write {n} [{o}..{}]", o + b.len() as u64), x => format!("{x:?}") }
}

struct Opts { /// only whole commits count, not how many
    prefix: bool, from_start: bool, twice: bool, nested: bool, cap: usize }

fn crash_case(rec: &mut Rec, steps: &[Step], o: &Opts) -> Result<usize, Value> {
    let path = fresh_path(&rec.scratch);
    let r = run_history(&path, steps);
    let _ = std::fs::remove_dir_all(&path);
    let (log, marks, last) = r?;
    let mut case = Case { images: HashMap::new() };
    let seen: Vec<Vec<Seen>> = marks.iter().map(|v| v.iter().map(expected).collect()).collect();
    let mut fs = Vfs::default();
    let mut allowed: Vec<Seen> = vec![];
    for (i, op) in log.iter().enumerate() {
        fs.apply(op);
        if let Fs::Mark(k) = op { if o.prefix { for s in &seen[*k] { if !allowed.contains(s) { allowed.push(s.clone()); } } } else { allowed = seen[*k].clone(); } }
        if i < last && !o.from_start { continue; }
        let (mut imgs, capped) = fs.machine_crash(o.cap);
        imgs.extend(fs.process_crash(op));
        if capped { rec.count("positions_with_capped_combinations", 1); }
        rec.count("crash_points", 1);
        for (how, img) in imgs {
            check_image(rec, &mut case, &img, &allowed, o.twice, o.nested).map_err(|mut e| { e["crash"] = json!(how); e["after_operation"] = json!(format!("{i}: {}", describe(op))); e["files"] = json!(img.iter().map(|(n, d)| format!("{n} ({} bytes)", d.len())).collect::<Vec<_>>()); e })?;
        }
    }
    Ok(case.images.len())
}
fn check_image(rec: &mut Rec, case: &mut Case, img: &Image, allowed: &[Seen], twice: bool, nested: bool) -> Result<(), Value> {
    let h = image_hash(img);
    rec.tick();
    if !case.images.contains_key(&h) {
        let p = fresh_path(&rec.scratch);
        let r = open_image(img, &p, twice);
        rec.count("transitions", 1);
        rec.count("traces_validated_against_impl", 1);
        rec.state(h);
        if nested { if let Ok(s) = &r { second_crash(rec, img, s)?; } }
        case.images.insert(h, r);
    }
    match &case.images[&h] {
        Err(e) => Err(e.clone()),
        Ok(s) if allowed.contains(s) => Ok(()),
        Ok(s) => Err(json!({"found": format!("{s:?}"), "allowed": allowed.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()})),
    }
}
/// the machine stops again while the database recovers
fn second_crash(rec: &mut Rec, img: &Image, s: &Seen) -> Result<(), Value> {
    let p = fresh_path(&rec.scratch);
    write_image(img, &p);
    record(Some(&p));
    let r = call(|| Database::open_path(&p));
    let db = r.ok();
    drop(db);
    record(None);
    let log = std::mem::take(&mut *LOG.lock().unwrap());
    let _ = std::fs::remove_dir_all(&p);
    let mut fs = Vfs::of(img);
    let mut case = Case { images: HashMap::new() };
    for (i, op) in log.iter().enumerate() {
        fs.apply(op);
        let mut imgs = fs.process_crash(op);
        imgs.extend(fs.machine_crash(16).0);
        rec.count("second_crash_points", 1);
        for (how, img2) in imgs { check_image(rec, &mut case, &img2, std::slice::from_ref(s), false, false).map_err(|mut e| { e["second_crash"] = json!(format!("{how}, after {i}: {}", describe(op))); e })?; }
    }
    Ok(())
}

fn alphabet(prefix: bool) -> Vec<Step> {
    let ins = |id: i32, a: i32| Op::Ins("k", doc! {"_id": id, "a": a, "b": 1});
    let many = Op::InsMany("k", vec![doc! {"_id": 3, "a": 3, "b": 1}, doc! {"_id": 4, "a": 4, "b": 2}]);
    let set = Op::Upd { c: "k", many: false, q: doc! {"_id": 1}, u: doc! {"$set": {"a": 5}} };
    let incs = Op::Upd { c: "k", many: true, q: doc! {}, u: doc! {"$inc": {"b": 1}} };
    let dels = Op::Del { c: "k", many: true, q: doc! {} };
    let big = |c: &'static str, n: i32| Op::InsMany(c, (10..10 + n).map(|i| doc! {"_id": i, "a": i, "s": "x".repeat(3000)}).collect());
    if prefix { return vec![
        Step::Op(ins(1, 1)), Step::Op(many.clone()), Step::Op(big("k", 30)), Step::Op(incs.clone()), Step::Op(dels.clone()), Step::Op(set.clone()),
        Step::Op(Op::Upd { c: "k", many: true, q: doc! {"b": 1}, u: doc! {"$set": {"b": 2}} }),
        Step::Op(Op::Del { c: "k", many: true, q: doc! {"b": 1} }),
        Step::Op(Op::Idx { c: "k", field: "a", name: None, unique: true }), Step::Op(Op::Idx { c: "k", field: "b", name: Some("ib"), unique: false }),
        Step::Op(Op::DropIdx("k", "ib")), Step::Op(Op::DropColl("k")), Step::Op(Op::Ins("new", doc! {"_id": 1, "a": 1})),
        Step::Txn(vec![ins(2, 2), incs.clone(), Op::Ins("m", doc! {"_id": 2, "a": 2})], None, true),
        Step::Txn(vec![ins(2, 2), set.clone()], Some(Op::Ins("m", doc! {"_id": 9, "a": 6})), true),
        Step::Txn(vec![big("m", 20), Op::Del { c: "k", many: true, q: doc! {} }], None, true),
        Step::Txn(vec![Op::Idx { c: "k", field: "b", name: Some("ib"), unique: false }, ins(2, 2), Op::Ins("new", doc! {"_id": 3, "a": 1})], None, true),
        Step::Txn(vec![Op::DropColl("k"), Op::Ins("k", doc! {"_id": 1, "a": 4}), Op::Ins("new", doc! {"_id": 4, "b": 1})], None, true),
        Step::Txn(vec![ins(2, 2), set, dels], Some(Op::Ins("k", doc! {"_id": 9, "a": 6})), false),
        Step::Two(vec![ins(5, 5), Op::Ins("m", doc! {"_id": 5, "a": 5})], vec![ins(6, 6), Op::Ins("m", doc! {"_id": 6, "a": 6})]),
        Step::Reopen,
    ]; }
    vec![
        Step::Op(ins(1, 1)), Step::Op(many.clone()), Step::Op(set.clone()), Step::Op(incs.clone()), Step::Op(dels.clone()),
        Step::Op(Op::Del { c: "k", many: false, q: doc! {"_id": 3} }),
        Step::Op(Op::Upsert { c: "m", id: Bson::Int32(1), u: doc! {"$inc": {"a": 1}} }),
        Step::Op(Op::Idx { c: "k", field: "a", name: None, unique: true }), Step::Op(Op::Idx { c: "k", field: "b", name: Some("ib"), unique: false }),
        Step::Op(Op::DropIdx("k", "a_1")), Step::Op(Op::DropColl("k")), Step::Op(Op::CreateColl("new")), Step::Op(Op::Ins("new", doc! {"_id": 7, "b": 2})),
        Step::Txn(vec![ins(2, 2), incs.clone(), Op::Ins("m", doc! {"_id": 2, "a": 2})], None, true),
        Step::Txn(vec![ins(2, 2), set.clone()], Some(Op::Ins("m", doc! {"_id": 9, "a": 6})), true),
        Step::Txn(vec![ins(2, 2), set, dels], Some(Op::Ins("k", doc! {"_id": 9, "a": 6})), false),
        Step::Two(vec![ins(5, 5), Op::Ins("m", doc! {"_id": 5, "a": 5})], vec![ins(6, 6), Op::Ins("m", doc! {"_id": 6, "a": 6})]),
        Step::Reopen,
    ]
}

fn run_all(rec: &mut Rec, prefix: bool) {
    quiet_panics();
    let al = alphabet(prefix);
    let quick = rec.quick();
    let depth = if quick { 2 } else { 3 };
    let mut todo: Vec<(u64, Vec<Step>, bool, bool)> = vec![];
    // opening a new database
    let mut fixed: Vec<(Vec<Step>, bool, bool)> = vec![(vec![], true, true)];
    for i in [0usize, 1, 13] { fixed.push((vec![al[i].clone(), Step::Reopen], false, true)); }
    for (s, a, b) in fixed { if rec.next() { todo.push((rec.position() - 1, s, a, b)); } }
    for d in 1..=depth { sequences(al.len(), d, |q| { if rec.next() { todo.push((rec.position() - 1, q.iter().map(|i| al[*i].clone()).collect(), false, false)); } }); }
    // every history of two statements, then reopened
    if quick && !prefix { sequences(al.len() - 1, 2, |q| { if rec.next() { let mut s: Vec<Step> = q.iter().map(|i| al[*i].clone()).collect(); s.push(Step::Reopen); todo.push((rec.position() - 1, s, false, false)); } }); }
    for (no, s, from_start, nested) in todo {
        let text: Vec<String> = s.iter().map(|x| x.text()).collect();
        rec.begin_at(no, || text.join(" | "));
        let r = crash_case(rec, &s, &Opts { prefix, from_start, twice: !quick || s.len() < 2, nested, cap: if quick { 24 } else { 256 } });
        rec.eval(Some(h64(&text)));
        if let Err(mut e) = r { e["history"] = json!(text); rec.viol(text.join(" | "), e); }
    }
}
fn durable(rec: &mut Rec) { run_all(rec, false) }
fn atomic(rec: &mut Rec) { run_all(rec, true) }
extern "C" fn ignore(_: i32, _: *const libc::c_char, _: *const libc::c_char, _: u64, _: *const u8, _: u64) {}
/// watch a directory without keeping a log
pub fn watch_only(p: &Path) { let f = sym!("vxf_root", extern "C" fn(*const libc::c_char, Option<Logger>)); let c = CString::new(p.display().to_string()).unwrap(); f(c.as_ptr(), Some(ignore)); }
