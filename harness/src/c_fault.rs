//! Storage faults (P26): every file operation of a history failing, once or from then on.
use crate::c_crash::*;
use crate::rec::*;
use crate::seq::*;
use crate::util::*;
use bson::{doc, Bson, Document};
use polodb_core::{Database, Transaction};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

pub fn register(v: &mut Vec<CheckDef>) {
    v.push(CheckDef { id: "P26", level: "model_checking", rule: "distinct (history, failing operation, kind of failure)", assumptions: &["a failing operation fails as a whole, except that a write may keep a part of its bytes", "what a failed write or sync has left behind may or may not be found after the next opening, but only as a whole statement"], run, preload: Some("fsx.so"), workers: 8, hang_s: 90 });
}

const EVERY: i32 = 1 | 2 | 4 | 8 | 16 | 32 | 64 | 128 | 256;

#[derive(Clone, Debug)]
enum St { Op(Op), Find(&'static str, Document), Count(&'static str), Names, Group(&'static str), Txn(Vec<St>, bool), Reopen }
impl St {
    fn text(&self) -> String {
        match self {
            St::Op(o) => o.text(), St::Find(c, q) => format!("{c}.find({q})"), St::Count(c) => format!("{c}.count_documents()"), St::Names => "list_collection_names()".into(), St::Group(c) => format!("{c}.aggregate(match, sort, count)"),
            St::Txn(v, c) => format!("txn[{}]{}", v.iter().map(|s| s.text()).collect::<Vec<_>>().join("; "), if *c { "commit" } else { "rollback" }), St::Reopen => "reopen".into(),
        }
    }
}

#[derive(Clone, Copy, Debug)]
struct Fault { n: i64, errno: i32, sticky: bool, torn: bool }

/// every state which what has been answered so far allows
#[derive(Clone)]
struct Cands(Vec<MDb>);
impl Cands {
    fn put(v: &mut Vec<MDb>, m: MDb) { let key = |m: &MDb| format!("{:?}{:?}", expected(m), m.colls.values().map(|c| &c.indexes).collect::<Vec<_>>()); let k = key(&m); if !v.iter().any(|x| key(x) == k) { v.push(m); } }
    fn states(&self) -> Vec<State> { self.0.iter().map(|m| nonempty(mstate(m))).collect() }
}

fn read(t: &Target, c: &Cands, s: &St) -> Result<bool, Value> {
    let fail = |got: String| Err(json!({"statement": s.text(), "got": got, "allowed_contents": c.states().iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()}));
    let docs = |c: &str, m: &MDb, q: &Document| -> BTreeSet<String> { m.colls.get(c).map(|x| x.matching(q).unwrap().iter().map(|k| rsorted(&x.docs[k])).collect()).unwrap_or_default() };
    match s {
        St::Find(n, q) => match t.coll(n).find(q) {
            Out::Ok(v) => { let g: BTreeSet<String> = v.iter().map(rsorted).collect(); if g.len() == v.len() && c.0.iter().any(|m| docs(n, m, q) == g) { Ok(true) } else { fail(format!("{v:?}").chars().take(400).collect()) } }
            Out::Err(_) => Ok(false), x => fail(format!("{x:?}")),
        },
        St::Count(n) => match t.coll(n).count() { Out::Ok(k) if c.0.iter().any(|m| docs(n, m, &doc! {}).len() as u64 == k) => Ok(true), Out::Err(_) => Ok(false), x => fail(format!("{x:?}")) },
        St::Group(n) => match t.coll(n).aggregate(&[doc! {"$match": {"b": {"$gte": 1}}}, doc! {"$sort": {"a": 1}}, doc! {"$count": "n"}]) {
            Out::Ok(v) => {
                let k = match v.first() { None => 0, Some(d) => match d.get("n") { Some(Bson::Int64(k)) => *k, Some(Bson::Int32(k)) => *k as i64, _ => -1 } };
                if c.0.iter().any(|m| docs(n, m, &doc! {"b": {"$gte": 1}}).len() as i64 == k) { Ok(true) } else { fail(format!("{v:?}")) }
            }
            Out::Err(_) => Ok(false), x => fail(format!("{x:?}")),
        },
        St::Names => match call(|| t.db.list_collection_names()) {
            Out::Ok(mut v) => { v.sort(); if c.0.iter().any(|m| m.colls.keys().cloned().collect::<Vec<_>>() == v) { Ok(true) } else { fail(format!("{v:?}")) } }
            Out::Err(_) => Ok(false), x => fail(format!("{x:?}")),
        },
        _ => unreachable!(),
    }
}

/// one statement; `Ok(false)`: it reported an error which the model does not expect
fn one(t: &Target, c: &mut Cands, s: &St) -> Result<bool, Value> {
    let St::Op(op) = s else { return read(t, c, s) };
    let got = t.exec(op);
    let mut next: Vec<MDb> = vec![];
    for m in &c.0 { for (n, e) in model_step(m, op) { if agrees(&e, &got) { Cands::put(&mut next, n); } } }
    match got {
        Out::Err(_) => {
            let planned = !next.is_empty();
            // as a whole or not at all
            if t.txn.is_none() { for m in c.0.clone() { for (n, _) in model_step(&m, op) { Cands::put(&mut next, n); } } }
            for m in c.0.drain(..) { Cands::put(&mut next, m); }
            c.0 = next;
            Ok(planned)
        }
        _ if next.is_empty() => Err(json!({"statement": s.text(), "got": format!("{got:?}"), "expected": c.0.iter().flat_map(|m| model_step(m, op)).map(|x| format!("{:?}", x.1)).collect::<Vec<_>>()})),
        _ => { c.0 = next; Ok(true) }
    }
}
/// what a transaction sees: the committed states one of which is right, with its own statements so far
fn body(t: &Target, txn: &Transaction, committed: &Cands, stmts: &[St]) -> Result<(Vec<(MDb, MDb)>, bool), Value> {
    let mut pairs: Vec<(MDb, MDb)> = committed.0.iter().map(|m| (m.clone(), m.clone())).collect();
    let t = Target { db: t.db, txn: Some(txn), prefix: String::new() };
    let mut clean = true;
    for s in stmts {
        match s {
            St::Op(op) => {
                let got = t.exec(op);
                let mut next = vec![];
                for (b, v) in &pairs { for (n, e) in model_step(v, op) { if agrees(&e, &got) { next.push((b.clone(), n)); } } }
                if let Out::Err(_) = got { if next.is_empty() { clean = false; } next = pairs.clone(); }
                if next.is_empty() { return Err(json!({"statement": format!("in the transaction: {}", s.text()), "got": format!("{got:?}"), "expected": pairs.iter().flat_map(|p| model_step(&p.1, op)).map(|x| format!("{:?}", x.1)).collect::<Vec<_>>()})); }
                pairs = next;
            }
            _ => clean &= read(&t, &Cands(pairs.iter().map(|p| p.1.clone()).collect()), s)?,
        }
    }
    Ok((pairs, clean))
}

fn opened(p: &PathBuf) -> Out<Database> { call(|| Database::open_path(p)) }

struct Live { db: Option<Database>, c: Cands, /// what the files may hold, where a statement failed after it was written
    d: Cands, /// every statement was answered as without faults
    clean: bool }

fn play(l: &mut Live, path: &PathBuf, steps: &[St]) -> Result<(), Value> {
    for s in steps {
        let Some(db) = l.db.as_ref() else { return Ok(()) };
        let t = Target { db, txn: None, prefix: String::new() };
        match s {
            St::Reopen => {
                l.db = None;
                match opened(path) { Out::Ok(d) => { l.db = Some(d); l.c = l.d.clone(); } Out::Err(_) => l.clean = false, Out::Panic(e) => return Err(json!({"statement": "reopen", "panic": e})) }
            }
            St::Txn(stmts, commit) => {
                let txn = match call(|| db.start_transaction()) { Out::Ok(x) => x, Out::Err(_) => { l.clean = false; continue } Out::Panic(e) => return Err(json!({"statement": "start_transaction", "panic": e})) };
                let (pairs, clean) = body(&t, &txn, &l.c, stmts)?;
                l.clean &= clean;
                let end = if *commit { call(|| txn.commit()) } else { call(|| txn.rollback()) };
                let mut next = vec![];
                match end {
                    Out::Ok(()) => for (b, v) in pairs { Cands::put(&mut next, if *commit { v } else { b }); },
                    Out::Err(_) => { l.clean = false; for (b, v) in pairs { Cands::put(&mut next, b); if *commit { Cands::put(&mut next, v); } } }
                    Out::Panic(e) => return Err(json!({"statement": s.text(), "panic": e})),
                }
                l.c = Cands(next);
                let mut d = l.c.0.clone();
                if !l.clean { for m in l.d.0.drain(..) { Cands::put(&mut d, m); } }
                l.d = Cands(d);
            }
            St::Op(op) => {
                l.clean &= one(&t, &mut l.c, s)?;
                let mut d = l.c.0.clone();
                for m in &l.d.0 { Cands::put(&mut d, m.clone()); for (n, _) in model_step(m, op) { Cands::put(&mut d, n); } }
                // as long as nothing has failed, all of it is certain
                l.d = if l.clean { l.c.clone() } else { Cands(d) };
            }
            _ => l.clean &= one(&t, &mut l.c, s)?,
        }
    }
    Ok(())
}

/// Returns how many operations the steps made, and whether the fault happened.
fn fault_case(rec: &mut Rec, base: &Image, m: &MDb, steps: &[St], f: Option<Fault>) -> Result<(i64, bool), Value> {
    let path = fresh_path(&rec.scratch);
    write_image(base, &path);
    let done = |r: Result<(i64, bool), Value>| { fail(0, 0, 0, false, false); record(None); let _ = std::fs::remove_dir_all(&path); r };
    let mut l = Live { db: None, c: Cands(vec![m.clone()]), d: Cands(vec![m.clone()]), clean: true };
    watch(&path);
    // opening is part of the history when it begins with it
    let begin = matches!(steps.first(), Some(St::Reopen));
    if !begin { match opened(&path) { Out::Ok(d) => l.db = Some(d), x => return done(Err(json!({"open": format!("{:?}", x.map(|_| ()))}))) } }
    match f { Some(f) => fail(EVERY, f.n, f.errno, f.sticky, f.torn), None => fail(EVERY, 0, 0, false, false) }
    let rest = if begin { match opened(&path) { Out::Ok(d) => l.db = Some(d), Out::Err(_) => l.clean = false, Out::Panic(e) => return done(Err(json!({"statement": "open", "panic": e}))) } &steps[1..] } else { steps };
    let r = play(&mut l, &path, rest);
    let (n, hit) = (op_count(), fired() > 0);
    if let Err(e) = r { drop(l.db.take()); return done(Err(e)); }
    if !hit && !l.clean { drop(l.db.take()); return done(Err(json!({"problem": "a statement failed although no file operation did"}))); }
    // whatever is still answered is right
    if let Some(db) = l.db.as_ref() {
        for s in [St::Find("k", doc! {}), St::Find("k", doc! {"a": 1}), St::Find("k", doc! {"b": 1}), St::Count("k"), St::Find("m", doc! {}), St::Names] {
            if let Err(mut e) = read(&Target { db, txn: None, prefix: String::new() }, &l.c, &s) { e["when"] = json!("after the history, the fault still there"); drop(l.db.take()); return done(Err(e)); }
        }
    }
    drop(l.db.take());
    fail(0, 0, 0, false, false);
    record(None);
    let img = read_image(&path);
    let _ = std::fs::remove_dir_all(&path);
    let allowed: Vec<Seen> = l.d.0.iter().map(expected).collect();
    let p = fresh_path(&rec.scratch);
    match open_image(&img, &p, !rec.quick()) {
        Err(mut e) => { e["when"] = json!("opened again without faults"); done(Err(e)) }
        Ok(s) if allowed.contains(&s) => { rec.state(h64(&format!("{s:?}"))); done(Ok((n, hit))) }
        Ok(s) => done(Err(json!({"when": "opened again without faults", "found": format!("{s:?}"), "allowed": allowed.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()}))),
    }
}
fn watch(p: &Path) { watch_only(p) }

/// databases to start from: in the log only, or in a table file of several blocks
fn bases(scratch: &PathBuf) -> Vec<(&'static str, Image, MDb)> {
    let mut out = vec![];
    for (name, reopen, big) in [("new", false, 0), ("logged", false, 1), ("table", true, 3000)] {
        let p = fresh_path(scratch);
        let mut m = MDb::default();
        {
            let db = open(&p);
            let mut ops = vec![Op::CreateColl("k"), Op::CreateColl("m")];
            if big > 0 {
                ops.push(Op::Idx { c: "k", field: "a", name: None, unique: true });
                ops.push(Op::InsMany("k", (1..=3).map(|i| doc! {"_id": i, "a": i, "b": 1, "s": "x".repeat(big)}).collect()));
                ops.push(Op::InsMany("m", (1..=2).map(|i| doc! {"_id": i, "a": 1, "s": "y".repeat(big)}).collect()));
                ops.push(Op::Idx { c: "k", field: "b", name: Some("ib"), unique: false });
            }
            let t = Target { db: &db, txn: None, prefix: String::new() };
            for op in &ops { assert!(t.exec(op).is_ok(), "{}", op.text()); m = model_step(&m, op)[0].0.clone(); }
        }
        if reopen { for _ in 0..2 { drop(open(&p)); } }
        out.push((name, read_image(&p), m));
        let _ = std::fs::remove_dir_all(&p);
    }
    out
}

fn alphabet() -> Vec<St> {
    let ins = |c: &'static str, id: i32, a: i32| St::Op(Op::Ins(c, doc! {"_id": id, "a": a, "b": 1}));
    let many = St::Op(Op::InsMany("k", vec![doc! {"_id": 7, "a": 4, "b": 1}, doc! {"_id": 8, "a": 5, "b": 2, "s": "z".repeat(2000)}]));
    let set = |many: bool, q: Document, u: Document| St::Op(Op::Upd { c: "k", many, q, u });
    let del = |many: bool, q: Document| St::Op(Op::Del { c: "k", many, q });
    vec![
        ins("k", 5, 6), many.clone(), ins("new", 1, 1),
        set(true, doc! {}, doc! {"$inc": {"b": 1}}), set(true, doc! {"b": 1}, doc! {"$set": {"b": 2}}), set(false, doc! {"_id": 2}, doc! {"$set": {"a": 6}}),
        St::Op(Op::Upsert { c: "m", id: Bson::Int32(9), u: doc! {"$set": {"a": 2}} }),
        del(true, doc! {}), del(true, doc! {"b": 1}), del(false, doc! {"a": 1}),
        St::Op(Op::Idx { c: "m", field: "a", name: None, unique: false }), St::Op(Op::Idx { c: "m", field: "a", name: None, unique: true }), St::Op(Op::DropIdx("k", "ib")), St::Op(Op::DropColl("k")), St::Op(Op::CreateColl("new")),
        St::Find("k", doc! {}), St::Find("k", doc! {"a": 2}), St::Find("k", doc! {"b": 1}), St::Find("k", doc! {"_id": 3}), St::Find("k", doc! {"a": {"$gte": 2}}), St::Count("k"), St::Count("m"), St::Group("k"), St::Names,
        St::Txn(vec![ins("k", 5, 6), set(true, doc! {}, doc! {"$inc": {"b": 1}}), ins("m", 5, 6)], true),
        St::Txn(vec![del(true, doc! {"b": 1}), many, St::Find("k", doc! {}), St::Op(Op::DropIdx("k", "ib"))], true),
        St::Txn(vec![St::Find("k", doc! {"a": 1}), del(false, doc! {"_id": 1}), St::Count("k"), ins("new", 2, 2)], true),
        St::Txn(vec![St::Op(Op::DropColl("k")), ins("k", 1, 1)], true),
        St::Txn(vec![ins("k", 5, 6), del(true, doc! {})], false),
        St::Reopen,
    ]
}

fn run(rec: &mut Rec) {
    quiet_panics();
    let quick = rec.quick();
    let al = alphabet();
    let bases = bases(&rec.scratch);
    // ENOSPC is left to the storage engine: it retries in a thread of its own, which may wait for closing and closing for it
    let modes: Vec<(i32, bool, bool)> = vec![(libc::EIO, false, false), (libc::EIO, true, false), (libc::EIO, false, true), (libc::EMFILE, false, false), (libc::EACCES, true, false)];
    let modes = if quick { modes[..3].to_vec() } else { modes };
    let mut todo: Vec<(u64, usize, Vec<St>)> = vec![];
    for b in 0..bases.len() {
        let mut hist: Vec<Vec<St>> = vec![];
        for s in &al { hist.push(vec![s.clone()]); if !matches!(s, St::Reopen) && (!quick || b == 2) { hist.push(vec![St::Reopen, s.clone()]); } }
        sequences(al.len(), 2, |q| if !quick || (q[0] + 2 * q[1]) % 16 == b { hist.push(q.iter().map(|i| al[*i].clone()).collect()); });
        if !quick { sequences(al.len(), 2, |q| if !matches!(al[q[0]], St::Reopen) { hist.push(vec![al[q[0]].clone(), St::Reopen, al[q[1]].clone()]); }); }
        for h in hist { if rec.next() { todo.push((rec.position() - 1, b, h)); } }
    }
    for (no, b, steps) in todo {
        let text = format!("{}: {}", bases[b].0, steps.iter().map(|s| s.text()).collect::<Vec<_>>().join(" | "));
        rec.begin_at(no, || text.clone());
        let (_, img, m) = &bases[b];
        let n = match fault_case(rec, img, m, &steps, None) { Ok((n, _)) => n, Err(e) => { rec.viol(text.clone(), json!({"without_faults": e})); continue } };
        rec.maxc("operations_of_a_history", n as u64);
        'modes: for (errno, sticky, torn) in &modes {
            for k in 1..=n {
                rec.tick();
                let f = Fault { n: k, errno: *errno, sticky: *sticky, torn: *torn };
                if std::env::var("VX_LOUD").is_ok() { eprintln!("{f:?}"); }
                let r = fault_case(rec, img, m, &steps, Some(f));
                rec.count("transitions", 1);
                rec.count("traces_validated_against_impl", 1);
                match r {
                    Ok((_, hit)) => rec.count(if hit { "faults_injected" } else { "faults_not_reached" }, 1),
                    Err(mut e) => { e["fault"] = json!(format!("{f:?}")); rec.viol(text.clone(), e); break 'modes; }
                }
            }
        }
        rec.eval(Some(h64(&text)));
    }
}
