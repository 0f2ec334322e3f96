//! Concurrency (P05, P07, P08, P09): every schedule of small programs of threads.
use crate::lin::*;
use crate::rec::*;
use crate::sched::{self, Mode};
use crate::seq::*;
use crate::util::*;
use bson::{doc, Bson, Document};
use polodb_core::Transaction;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

fn def(id: &'static str, run: fn(&mut Rec)) -> CheckDef {
    CheckDef { id, level: "model_checking", rule: "states: distinct final states with answers; transitions: scheduling points executed; every schedule is executed on the real code", assumptions: &["between two calls into RocksDB a thread of PoloDB shares nothing but what Rust's locks protect (bounded searches do not assume it)"], run, preload: Some("sched.so"), workers: 8, hang_s: 90 }
}
pub fn register(v: &mut Vec<CheckDef>) {
    v.push(def("P05", readers));
    v.push(def("P07", identifiers));
    v.push(def("P08", updates));
    v.push(def("P09", unique));
}

pub struct Program { pub name: String, pub setup: Vec<Op>, pub threads: Vec<Vec<Item>>, pub probe: Vec<(&'static str, Vec<Bson>)>, pub shared: bool, pub colls: Vec<&'static str> }

fn txt(p: &[Item]) -> String { p.iter().map(|i| i.text()).collect::<Vec<_>>().join("; ") }
pub fn program_text(p: &Program) -> String { format!("{}: {}", p.name, p.threads.iter().map(|t| format!("[{}]", txt(t))).collect::<Vec<_>>().join(" || ")) }

struct Run { prefix: String, clock: AtomicU64, evs: Mutex<Vec<Ev>>, txn: Option<Transaction>, db: *const polodb_core::Database }
unsafe impl Sync for Run {}

fn body(run: &Run, prog: &Program, t: usize) {
    let db = unsafe { &*run.db };
    let mut own: Option<Transaction> = run.txn.clone();
    for item in &prog.threads[t] {
        sched::statement_starts();
        let from = run.clock.fetch_add(1, Ordering::SeqCst);
        let before = sched::timeouts(t);
        let ans = {
            let tg = Target { db, txn: own.as_ref(), prefix: run.prefix.clone() };
            let docs = |o: Out<Vec<Document>>| Ans::Docs(o.map(|v| v.iter().map(rsorted).collect()));
            match item {
                Item::Op(op) => Ans::Done(tg.exec(op)),
                Item::Read(Rd::Find(c, q)) => docs(tg.coll(c).find(q)),
                Item::Read(Rd::Sorted(c, s)) => docs(tg.coll(c).find_opts(&doc! {}, Some(s), None, None)),
                Item::Read(Rd::Count(c)) => Ans::Count(tg.coll(c).count()),
                Item::Read(Rd::Agg(c, p)) => Ans::Docs(tg.coll(c).aggregate(p).map(|v| v.iter().map(|d| d.get("n").map(|x| x.as_i64().unwrap_or_else(|| x.as_i32().unwrap_or(-1) as i64).to_string()).unwrap_or("?".into())).collect())),
                Item::Read(Rd::Names) => Ans::Names(call(|| db.list_collection_names()).map(|v| { let mut v: Vec<String> = v.into_iter().filter(|n| n.starts_with(&run.prefix)).map(|n| n[run.prefix.len()..].to_string()).collect(); v.sort(); v })),
                Item::Begin => { match call(|| db.start_transaction()) { Out::Ok(x) => { own = Some(x); Ans::Done(Out::Ok(Resp::Unit)) } Out::Err(e) => Ans::Done(Out::Err(e)), Out::Panic(e) => Ans::Done(Out::Panic(e)) } }
                Item::Commit => { let r = call(|| own.as_ref().unwrap().commit()); own = None; Ans::Done(r.map(|_| Resp::Unit)) }
                Item::Rollback => { let r = call(|| own.as_ref().unwrap().rollback()); own = None; Ans::Done(r.map(|_| Resp::Unit)) }
                Item::Drop => { own = None; Ans::Done(Out::Ok(Resp::Unit)) }
            }
        };
        let to = run.clock.fetch_add(1, Ordering::SeqCst);
        let timed_out = sched::timeouts(t) > before;
        run.evs.lock().unwrap().push(Ev { thread: t, tx: if run.txn.is_some() { 99 } else { t }, item: item.clone(), ans, from, to, timed_out });
    }
}

pub fn explore_program(rec: &mut Rec, p: &Program, mode: Mode, limit: u64) {
    let mut s = Scratch::with_sentinel(&rec.scratch);
    let mut used = 0;
    let text = program_text(p);
    let spec = Spec { upsert_may_fail: true };
    let mut cache: HashMap<u64, bool> = HashMap::new();
    let mut base = MDb::default();
    let mut bad: Option<Value> = None;
    let scratch = rec.scratch.clone();
    let sp = std::cell::RefCell::new(&mut s);
    let basec = std::cell::RefCell::new(&mut base);
    let recc = std::cell::RefCell::new(&mut *rec);
    let res = sched::explore(p.threads.len(), mode, limit,
        || {
            let mut s = sp.borrow_mut();
            used += 1;
            if used % 200 == 0 { **s = Scratch::with_sentinel(&scratch); }
            let prefix = fresh_name("c");
            let mut m = MDb::default();
            let t = Target { db: s.db(), txn: None, prefix: prefix.clone() };
            for op in &p.setup { let x = model_step(&m, op); assert!(agrees(&x[0].1, &t.exec(op)), "setup {}", op.text()); m = x[0].0.clone(); }
            **basec.borrow_mut() = m;
            let txn = if p.shared { Some(s.db().start_transaction().unwrap()) } else { None };
            Run { prefix, clock: AtomicU64::new(0), evs: Mutex::new(vec![]), txn, db: s.db() as *const _ }
        },
        |run, t| body(run, p, t),
        |run, schedule, redundant| {
            let s = sp.borrow();
            let mut rec = recc.borrow_mut();
            rec.tick();
            if redundant { rec.count("redundant_executions", 1); }
            let mut evs = run.evs.into_inner().unwrap();
            let mut total = run.clock.load(Ordering::SeqCst);
            if let Some(t) = run.txn {
                let r = call(|| t.commit());
                evs.push(Ev { thread: 9, tx: 99, item: Item::Commit, ans: Ans::Done(r.map(|_| Resp::Unit)), from: total, to: total + 1, timed_out: false });
                total += 2;
            }
            let _ = total;
            let expected: usize = p.threads.iter().map(|t| t.len()).sum::<usize>() + p.shared as usize;
            evs.sort_by_key(|e| e.from);
            let t = Target { db: s.db(), txn: None, prefix: run.prefix.clone() };
            let outcome: Result<State, Value> = (|| {
                if evs.len() != expected { return Err(json!({"problem": "a thread panicked"})); }
                for e in &evs { if let Ans::Done(Out::Panic(x)) = &e.ans { return Err(json!({"panic": x, "in": e.item.text()})); } if let Ans::Docs(Out::Panic(x)) = &e.ans { return Err(json!({"panic": x, "in": e.item.text()})); } }
                let fin = t.state(&p.colls).map_err(|e| json!({"at the end": e}))?;
                final_checks(&t, p, &fin)?;
                Ok(fin)
            })();
            let shape: Vec<String> = evs.iter().map(|e| format!("T{} {} -> {}", e.thread, e.item.text(), ans_text(&e.ans))).collect();
            let verdict = match outcome {
                Err(e) => Err(e),
                Ok(fin) => {
                    let names: Vec<String> = call(|| s.db().list_collection_names()).ok().unwrap_or_default().into_iter().filter(|n| n.starts_with(&run.prefix)).map(|n| n[run.prefix.len()..].to_string()).collect::<BTreeSet<_>>().into_iter().collect();
                    let sig = h64(&(evs.iter().map(|e| (e.thread, e.from, e.to, format!("{:?}", e.ans), e.timed_out)).collect::<Vec<_>>(), &fin, &names));
                    rec.state(h64(&(&text, &shape, &fin)));
                    let mut b = basec.borrow().clone();
                    if p.shared { b = b.clone(); }
                    let ok = *cache.entry(sig).or_insert_with(|| { let mut es = evs.clone(); if p.shared { es.insert(0, Ev { thread: 8, tx: 99, item: Item::Begin, ans: Ans::Done(Out::Ok(Resp::Unit)), from: 0, to: 0, timed_out: false }); } explained(&b, &es, &spec, &fin, Some(&names)) });
                    if ok { Ok(()) } else { Err(json!({"problem": "no order of the statements and commits explains the answers and the final contents", "final": fin, "collections": names})) }
                }
            };
            if let Err(mut e) = verdict {
                e["history"] = json!(shape);
                e["intervals"] = json!(evs.iter().map(|e| (e.thread, e.from, e.to)).collect::<Vec<_>>());
                e["schedule"] = json!(schedule);
                bad = Some(e);
                return false;
            }
            true
        });
    rec.eval(Some(h64(&(&text, format!("{mode:?}")))));
    match res {
        Ok(st) => {
            rec.count("schedules", st.executions);
            rec.count("traces_validated_against_impl", st.executions);
            rec.count("transitions", st.points);
            rec.maxc("schedules_of_one_program", st.executions);
            rec.maxc("scheduling_points", st.max_depth);
            if st.diverged > 0 { rec.count("irreproducible_executions", st.diverged); }
            if st.cut { rec.count("searches_cut_at_their_limit", 1); }
            if let Some(e) = bad { rec.viol(text, e); }
        }
        Err(e) => rec.viol(format!("engine: {text}"), json!({"problem": e})),
    }
}
fn ans_text(a: &Ans) -> String { let s = format!("{a:?}"); s.chars().take(240).collect() }

fn final_checks(t: &Target, p: &Program, fin: &State) -> Result<(), Value> {
    for c in &p.colls {
        let n = fin.get(*c).map_or(0, |m| m.len());
        match t.coll(c).count() { Out::Ok(k) if k == n as u64 => {}, x => return Err(json!({"at the end": "count_documents", "got": format!("{x:?}"), "documents": n})) }
        let all = match t.coll(c).all() { Out::Ok(v) => v, x => return Err(json!({"at the end": format!("{x:?}")})) };
        for (f, vals) in &p.probe {
            for v in vals {
                let q = doc! {*f: v.clone()};
                let want: BTreeSet<String> = all.iter().filter(|d| crate::model::matches(d, &q).unwrap_or(false)).map(rsorted).collect();
                match t.coll(c).find(&q) {
                    Out::Ok(ds) => { let got: BTreeSet<String> = ds.iter().map(rsorted).collect(); if got != want || ds.len() != want.len() { return Err(json!({"at the end": format!("{c}.find({q})"), "got": got, "expected": want})); } }
                    x => return Err(json!({"at the end": format!("{c}.find({q})"), "got": format!("{x:?}")})),
                }
            }
        }
    }
    Ok(())
}

fn run_programs(rec: &mut Rec, ps: Vec<Program>, modes: &[Mode], limit: u64) {
    quiet_panics();
    for mode in modes { for p in &ps {
        if !rec.next() { continue; }
        rec.begin(|| format!("{mode:?} {}", program_text(p)));
        explore_program(rec, p, *mode, limit);
    } }
}
fn op(o: Op) -> Vec<Item> { vec![Item::Op(o)] }
fn txn(ops: Vec<Op>, end: Item) -> Vec<Item> { let mut v = vec![Item::Begin]; v.extend(ops.into_iter().map(Item::Op)); v.push(end); v }
fn inc(id: i32) -> Op { Op::Upd { c: "k", many: false, q: doc! {"_id": id}, u: doc! {"$inc": {"n": 1}} } }
fn set(id: i32, f: &str, v: i32) -> Op { Op::Upd { c: "k", many: false, q: doc! {"_id": id}, u: doc! {"$set": {f: v}} } }
fn del(id: i32) -> Op { Op::Del { c: "k", many: false, q: doc! {"_id": id} } }
fn ins(id: i32, a: i32) -> Op { Op::Ins("k", doc! {"_id": id, "a": a, "n": 0}) }
fn find(q: Document) -> Item { Item::Read(Rd::Find("k", q)) }
fn idx(f: &'static str, unique: bool) -> Op { Op::Idx { c: "k", field: f, name: None, unique } }
fn vals(v: &[i32]) -> Vec<Bson> { v.iter().map(|x| Bson::Int32(*x)).collect() }

/// all unordered pairs
fn pairs(name: &str, setup: &[Op], a: &[Vec<Item>], probe: &[(&'static str, Vec<Bson>)]) -> Vec<Program> {
    let mut out = vec![];
    for i in 0..a.len() { for j in i..a.len() {
        out.push(Program { name: name.into(), setup: setup.to_vec(), threads: vec![a[i].clone(), a[j].clone()], probe: probe.to_vec(), shared: false, colls: vec!["k"] });
    } }
    out
}
fn cross(name: &str, setup: &[Op], a: &[Vec<Item>], b: &[Vec<Item>], probe: &[(&'static str, Vec<Bson>)]) -> Vec<Program> {
    let mut out = vec![];
    for x in a { for y in b { out.push(Program { name: name.into(), setup: setup.to_vec(), threads: vec![x.clone(), y.clone()], probe: probe.to_vec(), shared: false, colls: vec!["k"] }); } }
    out
}
fn triples(name: &str, setup: &[Op], a: &[Vec<Item>], probe: &[(&'static str, Vec<Bson>)]) -> Vec<Program> {
    let mut out = vec![];
    for i in 0..a.len() { for j in i..a.len() { for k in j..a.len() {
        out.push(Program { name: name.into(), setup: setup.to_vec(), threads: vec![a[i].clone(), a[j].clone(), a[k].clone()], probe: probe.to_vec(), shared: false, colls: vec!["k"] });
    } } }
    out
}

// ---------------------------------------------------------------- P08
fn updates(rec: &mut Rec) {
    let setup = vec![ins(1, 1), ins(2, 2)];
    let probe = vec![("a", vals(&[1, 2, 3]))];
    let push = Op::Upd { c: "k", many: false, q: doc! {"_id": 1}, u: doc! {"$push": {"p": 7}} };
    let filt = Op::Upd { c: "k", many: false, q: doc! {"a": 1}, u: doc! {"$inc": {"n": 1}} };
    let filt_del = Op::Del { c: "k", many: false, q: doc! {"a": 1} };
    let bodies = vec![
        op(inc(1)), op(filt.clone()), op(del(1)), op(ins(1, 5)), op(set(1, "a", 3)), op(push), op(filt_del),
        op(Op::Upd { c: "k", many: false, q: doc! {"_id": 1, "n": {"$lt": 1}}, u: doc! {"$inc": {"n": 1}} }),
        txn(vec![inc(1), inc(2)], Item::Commit), txn(vec![inc(2), inc(1)], Item::Commit), txn(vec![inc(1)], Item::Rollback), txn(vec![inc(1)], Item::Drop),
        txn(vec![del(1), ins(1, 9)], Item::Commit), txn(vec![inc(1), inc(1)], Item::Commit),
        vec![Item::Op(inc(1)), Item::Op(inc(2))], vec![Item::Op(inc(1)), find(doc! {"_id": 1})],
    ];
    let mut ps = pairs("updates", &setup, &bodies, &probe);
    let mut si = setup.clone();
    si.push(idx("a", false));
    let few = vec![op(inc(1)), op(filt), op(del(1)), op(set(1, "a", 3)), txn(vec![set(1, "a", 2), set(2, "a", 1)], Item::Commit), txn(vec![set(1, "a", 4)], Item::Rollback)];
    ps.extend(pairs("updates with an index", &si, &few, &probe));
    // all documents at once
    let many = vec![op(Op::Upd { c: "k", many: true, q: doc! {}, u: doc! {"$inc": {"n": 10}} }), op(Op::Del { c: "k", many: true, q: doc! {} })];
    ps.extend(cross("all documents", &setup, &many, &[op(inc(1)), op(inc(2)), op(del(1)), op(ins(3, 3)), many[0].clone(), txn(vec![inc(1), inc(2)], Item::Commit), txn(vec![inc(2)], Item::Rollback)], &probe));
    // one transaction used by two threads
    for (a, b) in [(inc(1), inc(1)), (inc(1), del(1)), (inc(1), inc(2)), (ins(3, 1), ins(3, 2)), (ins(3, 1), inc(1))] {
        for r in [vec![], vec![find(doc! {})]] {
            let mut x = op(a.clone()); x.extend(r);
            ps.push(Program { name: "one transaction, two threads".into(), setup: setup.clone(), threads: vec![x, op(b.clone())], probe: probe.clone(), shared: true, colls: vec!["k"] });
        }
    }
    let small = vec![op(inc(1)), op(del(1)), txn(vec![inc(1)], Item::Commit), txn(vec![inc(1)], Item::Rollback)];
    let t3 = triples("updates", &setup, &small, &probe);
    if rec.thorough() { ps.extend(t3); run_programs(rec, ps, &[Mode::Por, Mode::Bounded(3)], 3_000_000); } else { run_programs(rec, ps, &[Mode::Por, Mode::Bounded(2)], 300_000); run_programs(rec, t3, &[Mode::Bounded(1)], 300_000); }
}

// ---------------------------------------------------------------- P05
fn readers(rec: &mut Rec) {
    let setup = vec![ins(1, 1), ins(2, 2)];
    let mut indexed = setup.clone();
    indexed.push(idx("a", false));
    let writers = vec![
        op(Op::InsMany("k", vec![doc! {"_id": 3, "a": 1}, doc! {"_id": 4, "a": 2}])),
        txn(vec![inc(1), inc(2)], Item::Commit),
        txn(vec![set(1, "a", 2), set(2, "a", 1)], Item::Commit),
        txn(vec![set(1, "a", 2), ins(3, 1)], Item::Rollback),
        txn(vec![del(1), ins(5, 1)], Item::Commit),
        op(Op::Upd { c: "k", many: true, q: doc! {}, u: doc! {"$inc": {"a": 1}} }),
        op(Op::Del { c: "k", many: true, q: doc! {} }),
        vec![Item::Op(set(1, "a", 2)), Item::Op(set(1, "a", 1))],
    ];
    let rd = vec![
        vec![find(doc! {})], vec![find(doc! {"a": 1})], vec![find(doc! {"a": 2})], vec![find(doc! {"_id": 1})], vec![find(doc! {"$or": [{"a": 1}, {"a": 2}]})],
        vec![Item::Read(Rd::Count("k"))], vec![Item::Read(Rd::Agg("k", vec![doc! {"$match": {"a": 1}}, doc! {"$count": "n"}]))], vec![Item::Read(Rd::Sorted("k", doc! {"_id": 1}))],
        vec![find(doc! {"a": {"$in": [1, 2]}})],
        vec![find(doc! {"a": 1}), find(doc! {"a": 1})], vec![find(doc! {}), Item::Read(Rd::Count("k"))],
        vec![Item::Begin, find(doc! {"a": 1}), find(doc! {}), Item::Commit], vec![Item::Begin, Item::Op(ins(9, 1)), find(doc! {}), Item::Rollback],
    ];
    let mut ps = cross("reader", &setup, &writers, &rd, &[]);
    ps.extend(cross("reader, index", &indexed, &writers, &rd, &[("a", vals(&[1, 2, 3]))]));
    // two readers, two writers
    let mut p3 = vec![];
    for w in &writers { for (x, y) in [(1, 2), (0, 5), (9, 10)] { p3.push(Program { name: "two readers".into(), setup: indexed.clone(), threads: vec![w.clone(), rd[x].clone(), rd[y].clone()], probe: vec![], shared: false, colls: vec!["k"] }); } }
    for (i, w) in writers.iter().enumerate() { for v in &writers[i..] { for x in [0, 1] { p3.push(Program { name: "two writers".into(), setup: indexed.clone(), threads: vec![w.clone(), v.clone(), rd[x].clone()], probe: vec![], shared: false, colls: vec!["k"] }); } } }
    // the collection appears while it is read
    let create = vec![op(Op::CreateColl("k")), op(ins(1, 1)), txn(vec![ins(1, 1), ins(2, 1)], Item::Commit), op(Op::DropColl("k"))];
    let look = vec![vec![find(doc! {})], vec![Item::Read(Rd::Names)], vec![Item::Read(Rd::Count("k"))], vec![Item::Read(Rd::Names), find(doc! {})]];
    ps.extend(cross("the collection appears", &[], &create, &look, &[]));
    ps.extend(cross("the collection disappears", &indexed, &[op(Op::DropColl("k")), op(Op::DropIdx("k", "a_1")), op(idx("n", false))], &[look.clone(), rd.clone()].concat(), &[]));
    if rec.thorough() { p3.retain(|p| p.name == "two readers"); ps.extend(p3); run_programs(rec, ps, &[Mode::Por, Mode::Bounded(3)], 3_000_000); } else { run_programs(rec, ps, &[Mode::Por, Mode::Bounded(2)], 300_000); run_programs(rec, p3, &[Mode::Bounded(1)], 300_000); }
}

// ---------------------------------------------------------------- P07
fn identifiers(rec: &mut Rec) {
    let ups = |u: i32| Op::Upsert { c: "k", id: Bson::Int32(1), u: doc! {"$inc": {"n": u}} };
    let many = |a: i32, b: i32| Op::InsMany("k", vec![doc! {"_id": a}, doc! {"_id": b}]);
    let bodies = vec![
        op(ins(1, 1)), op(many(1, 2)), op(many(2, 1)), txn(vec![ins(1, 3)], Item::Commit), txn(vec![ins(1, 4)], Item::Rollback), op(ups(1)), txn(vec![ups(10)], Item::Commit), op(del(1)),
        txn(vec![ins(2, 1), ins(1, 1)], Item::Commit), vec![Item::Op(ins(1, 7)), Item::Op(ins(2, 7))], txn(vec![ins(1, 5)], Item::Drop),
    ];
    let mut ps = pairs("identifiers", &[ins(7, 7)], &bodies, &[]);
    ps.extend(pairs("identifiers, present", &[ins(7, 7), ins(1, 0)], &bodies[..8].to_vec(), &[]));
    let ddl = vec![op(Op::CreateColl("k")), op(Op::DropColl("k")), op(idx("a", false)), op(Op::DropIdx("k", "a_1"))];
    let mut all = bodies.clone();
    all.truncate(7);
    all.extend(ddl.clone());
    ps.extend(pairs("a collection which does not exist", &[], &all, &[("a", vals(&[1, 3]))]));
    ps.extend(cross("definitions", &[ins(7, 7), idx("a", false)], &ddl, &[bodies.clone(), ddl.clone()].concat(), &[("a", vals(&[1, 3, 7]))]));
    let few = vec![op(ins(1, 1)), txn(vec![ins(1, 3)], Item::Rollback), op(ups(1)), op(del(1))];
    let t3 = triples("identifiers", &[ins(7, 7)], &few, &[]);
    if rec.thorough() { ps.extend(t3); run_programs(rec, ps, &[Mode::Por, Mode::Bounded(3)], 3_000_000); } else { run_programs(rec, ps, &[Mode::Por, Mode::Bounded(2)], 300_000); run_programs(rec, t3, &[Mode::Bounded(1)], 300_000); }
}

// ---------------------------------------------------------------- P09
fn unique(rec: &mut Rec) {
    let probe = vec![("a", vals(&[1, 2, 3, 9]))];
    let base = vec![ins(1, 1), ins(2, 2)];
    let mut setup = base.clone();
    setup.push(idx("a", true));
    let bodies = vec![
        op(ins(3, 9)), op(ins(4, 9)), op(set(1, "a", 9)), op(set(2, "a", 9)), op(del(1)), op(ins(5, 1)), op(set(2, "a", 1)), op(set(1, "a", 3)),
        txn(vec![del(1), ins(6, 1)], Item::Commit), txn(vec![set(1, "a", 9)], Item::Commit), txn(vec![set(1, "a", 9)], Item::Rollback), txn(vec![set(1, "a", 9)], Item::Drop), txn(vec![ins(3, 9), set(1, "a", 3)], Item::Commit),
        op(Op::InsMany("k", vec![doc! {"_id": 7, "a": 8}, doc! {"_id": 8, "a": 9}])),
        op(Op::Upsert { c: "k", id: Bson::Int32(5), u: doc! {"$set": {"a": 9}} }),
        op(Op::Upd { c: "k", many: false, q: doc! {"a": 1}, u: doc! {"$set": {"a": 9}} }),
    ];
    let mut ps = pairs("unique", &setup, &bodies, &probe);
    let dup = vec![ins(1, 1), ins(2, 2), ins(3, 9)];
    let create = vec![op(idx("a", true)), vec![Item::Op(idx("a", true)), Item::Op(ins(20, 9))]];
    ps.extend(cross("index creation", &base, &create, &bodies, &probe));
    ps.extend(cross("index creation, equal value", &dup, &create, &[op(set(2, "a", 9)), op(ins(5, 9)), op(del(3)), txn(vec![ins(5, 9)], Item::Commit), txn(vec![ins(5, 9)], Item::Rollback), op(set(3, "a", 2))], &probe));
    ps.extend(cross("index removal", &setup, &[op(Op::DropIdx("k", "a_1"))], &bodies, &probe));
    let few = vec![op(ins(3, 9)), op(set(1, "a", 9)), op(del(1)), op(ins(5, 1))];
    let t3 = triples("unique", &setup, &few, &probe);
    if rec.thorough() { ps.extend(t3); run_programs(rec, ps, &[Mode::Por, Mode::Bounded(3)], 3_000_000); } else { run_programs(rec, ps, &[Mode::Por, Mode::Bounded(2)], 300_000); run_programs(rec, t3, &[Mode::Bounded(1)], 300_000); }
}
