//! Lifetimes: reopening (P03), transactions (P04), handles and ownership (P33).
use crate::rec::*;
use crate::seq::*;
use crate::util::*;
use bson::{doc, Bson, Document};
use polodb_core::{ClientCursor, CollectionT, Database, Transaction};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn def(id: &'static str, rule: &'static str, run: fn(&mut Rec)) -> CheckDef {
    CheckDef { id, level: "model_checking", rule, assumptions: &[], run, preload: None, workers: 8, hang_s: 60 }
}
pub fn register(v: &mut Vec<CheckDef>) {
    v.push(def("P03", "distinct histories which leave something to find after reopening", |r| { reopen(r); crate::c_scale::collections(r, true); }));
    v.push(def("P04", "distinct interleavings in which a transaction has written", |r| { txns(r); crate::c_scale::transactions(r); }));
    v.push(def("P33", "distinct (history of handles); openings by another process", handles));
}

// ---------------------------------------------------------------- P03

#[derive(Clone, Debug)]
enum L { Op(Op), Txn(Vec<Op>, End), Reopen }
#[derive(Clone, Copy, Debug, PartialEq)]
enum End { Commit, Rollback, Drop, OpenAtClose, DropAfterDb }
impl L {
    fn text(&self) -> String {
        match self { L::Op(o) => o.text(), L::Reopen => "reopen".into(), L::Txn(o, e) => format!("txn[{}]{e:?}", o.iter().map(|x| x.text()).collect::<Vec<_>>().join("; ")) }
    }
}

fn reopen(rec: &mut Rec) {
    quiet_panics();
    let body = vec![Op::Ins("k", doc! {"_id": 5, "a": 5}), Op::Upd { c: "k", many: true, q: doc! {}, u: doc! {"$inc": {"b": 1}} }, Op::Ins("new", doc! {"_id": "n"})];
    let body2 = vec![Op::Idx { c: "k", field: "b", name: None, unique: false }, Op::Del { c: "k", many: true, q: doc! {"a": 1} }];
    let ops = vec![
        L::Op(Op::Ins("k", doc! {"_id": 1, "a": 1, "b": 1})),
        L::Op(Op::Ins("k", doc! {"_id": "x", "a": 1, "n": {"d": [1, {"e": Bson::Null}]}})),
        L::Op(Op::InsMany("k", vec![doc! {"_id": 2, "a": 2, "b": 1}, doc! {"_id": 3i64, "a": "s", "b": 2}])),
        L::Op(Op::Upd { c: "k", many: false, q: doc! {"_id": 1}, u: doc! {"$set": {"a": 2}} }),
        L::Op(Op::Upd { c: "k", many: true, q: doc! {"b": 1}, u: doc! {"$inc": {"a": 1}} }),
        L::Op(Op::Del { c: "k", many: true, q: doc! {"a": 2} }),
        L::Op(Op::Idx { c: "k", field: "a", name: None, unique: true }),
        L::Op(Op::Idx { c: "k", field: "b", name: Some("ib"), unique: false }),
        L::Op(Op::DropIdx("k", "a_1")),
        L::Op(Op::DropColl("k")),
        L::Op(Op::CreateColl("m")),
        L::Op(Op::Ins("m", doc! {"_id": Bson::Int32(1), "a": 1})),
        L::Txn(body.clone(), End::Commit),
        L::Txn(body.clone(), End::Rollback),
        L::Txn(body.clone(), End::OpenAtClose),
        L::Txn(body.clone(), End::DropAfterDb),
        L::Txn(body2.clone(), End::Commit),
        L::Txn(body2, End::Drop),
        L::Reopen,
    ];
    let depth = if rec.quick() { 3 } else { 4 };
    let colls = ["k", "m", "new"];
    let fields: Vec<(&'static str, Vec<Bson>)> = vec![("a", vec![Bson::Int32(1), Bson::Int32(2), Bson::Int32(5)]), ("b", vec![Bson::Int32(1), Bson::Int32(2)])];
    // the last operation runs on the reopened database
    let mut todo = vec![];
    sequences(ops.len(), depth, |q| { if rec.next() { todo.push((rec.position() - 1, q.to_vec())); } });
    for (no, q) in todo {
        let text: Vec<String> = q.iter().map(|i| ops[*i].text()).collect();
        rec.begin_at(no, || text.join(" | "));
        let r = reopen_case(rec, &ops, &q, &colls, &fields);
        let interesting = match &r { Ok(n) => *n, Err(_) => true };
        rec.eval(if interesting { Some(h64(&text)) } else { None });
        if let Err(mut e) = r { e["history"] = json!(text); rec.viol(text.join(" | "), e); }
    }
}

fn reopen_case(rec: &mut Rec, ops: &[L], q: &[usize], colls: &[&'static str], fields: &[(&'static str, Vec<Bson>)]) -> Result<bool, Value> {
    let mut s = Scratch::new(&rec.scratch);
    let mut m = MDb::default();
    for i in q {
        rec.count("transitions", 1);
        match &ops[*i] {
            L::Op(op) => m = step(&Target { db: s.db(), txn: None, prefix: String::new() }, &m, op, colls)?,
            L::Reopen => { s.reopen(); check_all(&s, &m, colls, fields)?; }
            L::Txn(body, end) => {
                let txn = s.db().start_transaction().map_err(|e| json!({"start": e.to_string()}))?;
                let mut n = m.clone();
                for op in body { n = step(&Target { db: s.db(), txn: Some(&txn), prefix: String::new() }, &n, op, colls)?; }
                match end {
                    End::Commit => { match call(|| txn.commit()) { Out::Ok(()) => m = n, x => return Err(json!({"commit": format!("{x:?}")})) } }
                    End::Rollback => { if let x @ (Out::Err(_) | Out::Panic(_)) = call(|| txn.rollback()) { return Err(json!({"rollback": format!("{x:?}")})); } }
                    End::Drop => drop(txn),
                    End::OpenAtClose => { let p = std::panic::AssertUnwindSafe((txn, &mut s)); std::panic::catch_unwind(|| { let p = p; let (t, s) = p.0; drop(t); s.db = None; }).map_err(|_| json!({"close": "panic"}))?; s.db = Some(reopened(&s)?); }
                    End::DropAfterDb => { let p = std::panic::AssertUnwindSafe((txn, &mut s)); std::panic::catch_unwind(|| { let p = p; let (t, s) = p.0; s.db = None; drop(t); }).map_err(|_| json!({"close": "panic"}))?; s.db = Some(reopened(&s)?); }
                }
                if *end != End::Commit { check_all(&s, &m, colls, fields)?; }
            }
        }
    }
    s.db = None;
    s.db = Some(reopened(&s)?);
    check_all(&s, &m, colls, fields)?;
    // uniqueness goes on, new documents are accepted, and all of this is still there the next time
    let n = step(&Target { db: s.db(), txn: None, prefix: String::new() }, &m, &Op::Ins("k", doc! {"_id": "late", "a": 1}), colls)?;
    let n = step(&Target { db: s.db(), txn: None, prefix: String::new() }, &n, &Op::Ins("k", doc! {"_id": 1, "a": 77}), colls)?;
    let n = step(&Target { db: s.db(), txn: None, prefix: String::new() }, &n, &Op::Del { c: "k", many: true, q: doc! {"b": 2} }, colls)?;
    s.db = None;
    s.db = Some(reopened(&s)?);
    check_all(&s, &n, colls, fields)?;
    rec.state(h64(&format!("{n:?}")));
    rec.count("traces_validated_against_impl", 1);
    Ok(!nonempty(mstate(&m)).is_empty() || m.colls.values().any(|c| !c.indexes.is_empty()))
}
fn reopened(s: &Scratch) -> Result<Database, Value> {
    match call(|| Database::open_path(&s.path)) { Out::Ok(d) => Ok(d), x => Err(json!({"problem": "cannot open again", "got": format!("{:?}", x.map(|_| ()))})) }
}
fn check_all(s: &Scratch, m: &MDb, colls: &[&'static str], fields: &[(&'static str, Vec<Bson>)]) -> Result<(), Value> {
    let t = Target { db: s.db(), txn: None, prefix: String::new() };
    let st = t.state(colls).map_err(|e| json!({"problem": e}))?;
    if st != nonempty(mstate(m)) { return Err(json!({"after_reopening": format!("{st:?}"), "expected": format!("{:?}", nonempty(mstate(m)))})); }
    probe(&t, m, colls, fields)?;
    let mut names = match call(|| s.db().list_collection_names()) { Out::Ok(v) => v, x => return Err(json!({"list_collection_names": format!("{x:?}")})) };
    names.sort();
    let want: Vec<String> = m.colls.keys().cloned().collect();
    if names != want { return Err(json!({"list_collection_names": names, "expected": want})); }
    Ok(())
}

// ---------------------------------------------------------------- P04


#[derive(Clone, Debug)]
enum TOp { T(usize, What), End(usize, How), Auto(What) }
#[derive(Clone, Debug)]
enum What { Ins(i32), InsMany(i32), Inc(i32), Set(i32), Del(i32), DupIns(i32), Upsert(i32), UpdMine(usize), DelMine(usize) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Commit, Rollback, Drop }

fn txns(rec: &mut Rec) {
    quiet_panics();
    // keys 1x belong to transaction 0, 2x to transaction 1, 3x to the statements outside
    let base: Vec<i32> = vec![10, 11, 20, 21, 30];
    let mut ops = vec![
        TOp::T(0, What::Ins(12)), TOp::T(0, What::Inc(10)), TOp::T(0, What::Del(11)), TOp::T(0, What::DupIns(10)), TOp::T(0, What::UpdMine(0)), TOp::T(0, What::InsMany(13)), TOp::T(0, What::Upsert(15)),
        TOp::End(0, How::Commit), TOp::End(0, How::Rollback), TOp::End(0, How::Drop),
        TOp::T(1, What::Ins(22)), TOp::T(1, What::Set(20)), TOp::T(1, What::DelMine(1)),
        TOp::End(1, How::Commit), TOp::End(1, How::Drop),
        TOp::Auto(What::Inc(30)),
    ];
    if rec.thorough() { ops.push(TOp::Auto(What::Ins(31))); ops.push(TOp::End(1, How::Rollback)); }
    let depth = if rec.quick() { 4 } else { 5 };
    let mut todo = vec![];
    for indexed in [false, true] {
        let (n, depth) = if indexed { (ops.len(), if rec.quick() { 3 } else { 4 }) } else if rec.thorough() { (ops.len(), depth) } else { (16, depth) };
        sequences(n, depth, |q| { if rec.next() { todo.push((rec.position() - 1, indexed, q.to_vec())); } });
    }
    let mut s = Scratch::with_sentinel(&rec.scratch);
    for (n, (no, indexed, q)) in todo.into_iter().enumerate() {
        if n % 200 == 199 { s = Scratch::with_sentinel(&rec.scratch); }
        let text: Vec<String> = q.iter().map(|i| format!("{:?}", ops[*i])).collect();
        let key = format!("{}{}", if indexed { "indexed: " } else { "" }, text.join("; "));
        rec.begin_at(no, || key.clone());
        let mut wrote = false;
        let r = txn_case(rec, &s, &ops, &q, &base, indexed, &mut wrote);
        rec.eval(if wrote { Some(h64(&key)) } else { None });
        rec.count("traces_validated_against_impl", 1);
        if let Err(e) = r { rec.viol(key, e); }
    }
    txn_ddl(rec);
}

fn view_of(c: &Coll, indexed: bool) -> Result<BTreeMap<String, String>, String> {
    let ds = match c.all() { Out::Ok(v) => v, x => return Err(format!("{x:?}")) };
    let m = render_set(&ds)?;
    if indexed {
        // the same through the index on a
        let mut n = BTreeMap::new();
        for v in 1..=4 {
            match c.find(&doc! {"a": v}) { Out::Ok(ds) => n.extend(render_set(&ds)?), x => return Err(format!("{x:?}")) }
        }
        if n != m { return Err(format!("find({{}}) gives {m:?}, the index {n:?}")); }
    }
    match c.count() { Out::Ok(n) if n == m.len() as u64 => {}, x => return Err(format!("count_documents {x:?}, documents {}", m.len())) }
    Ok(m)
}

fn txn_case(rec: &mut Rec, s: &Scratch, ops: &[TOp], q: &[usize], base: &[i32], indexed: bool, wrote: &mut bool) -> Result<(), Value> {
    let name = fresh_name("k");
    let auto = Coll::auto(s.db(), &name);
    let own = |k: i32| k / 10;
    for k in base { auto.insert(&doc! {"_id": *k, "o": own(*k), "a": 1, "n": 0}).ok().ok_or(json!({"setup": "insert"}))?; }
    if indexed { auto.create_index("a", None, false).ok().ok_or(json!({"setup": "index"}))?; }
    let mut committed: BTreeMap<String, Document> = base.iter().map(|k| (k.to_string(), doc! {"_id": *k, "o": own(*k), "a": 1, "n": 0})).collect();
    let mut history: Vec<BTreeMap<String, Document>> = vec![committed.clone()];
    struct T { h: Option<Transaction>, c: Coll<'static>, mine: BTreeMap<String, Option<Document>>, since: usize, live: bool }
    let mut tx: Vec<T> = vec![];
    for _ in 0..2 { let h = s.db().start_transaction().map_err(|e| json!({"start": e.to_string()}))?; let c = Coll::txn(&h, &name); tx.push(T { h: Some(h), c, mine: BTreeMap::new(), since: 0, live: true }); }
    let r = (|| -> Result<(), Value> {
        for (i, op) in q.iter().map(|i| &ops[*i]).enumerate() {
            rec.count("transitions", 1);
            let at = format!("step {}: {op:?}", i + 1);
            let (t, what) = match op {
                TOp::End(t, how) => {
                    let x = &mut tx[*t];
                    let live = x.live;
                    let r = match (how, &x.h) {
                        (How::Commit, Some(h)) => call(|| h.commit()),
                        (How::Rollback, Some(h)) => call(|| h.rollback()),
                        (How::Drop, _) => { x.h = None; Out::Ok(()) }
                        (_, None) => continue,
                    };
                    match (live, how, &r) {
                        (_, _, Out::Panic(_)) => return Err(json!({"at": at, "got": format!("{r:?}")})),
                        (true, _, Out::Err(_)) => return Err(json!({"at": at, "got": format!("{r:?}")})),
                        // ending twice may be refused; if it is accepted it has no effect
                        _ => {}
                    }
                    if live {
                        x.live = false;
                        if *how == How::Commit && !x.mine.is_empty() {
                            for (k, d) in &x.mine { match d { Some(d) => { committed.insert(k.clone(), d.clone()); } None => { committed.remove(k); } } }
                            history.push(committed.clone());
                        }
                    }
                    (None, None)
                }
                TOp::T(t, w) => (Some(*t), Some(w)),
                TOp::Auto(w) => (None, Some(w)),
            };
            if let Some(w) = what {
                let current: BTreeMap<String, Document> = { let mut m = committed.clone(); if let Some(t) = t { for (k, d) in &tx[t].mine { match d { Some(d) => { m.insert(k.clone(), d.clone()); } None => { m.remove(k); } } } } m };
                let c = match t { Some(t) => &tx[t].c, None => &auto };
                let live = t.map_or(true, |t| tx[t].live);
                let mut eff: BTreeMap<String, Option<Document>> = BTreeMap::new();
                let has = |k: &i32| current.contains_key(&k.to_string());
                let dv = |k: i32, n: i32| doc! {"_id": k, "o": own(k), "a": 2, "n": n};
                let got: Out<String> = match w {
                    What::Ins(k) => c.insert(&dv(*k, 5)).map(|_| "ok".into()),
                    What::InsMany(k) => c.insert_many(&[dv(*k, 6), dv(*k + 1, 6)]).map(|v| format!("{}", v.len())),
                    What::DupIns(k) => c.insert(&dv(*k, 9)).map(|_| "ok".into()),
                    What::Inc(k) => c.update(false, &doc! {"_id": *k}, &doc! {"$inc": {"n": 1}}, false).map(|x| format!("{x:?}")),
                    What::Set(k) => c.update(false, &doc! {"_id": *k}, &doc! {"$set": {"a": 3}}, false).map(|x| format!("{x:?}")),
                    What::Upsert(k) => c.update(false, &doc! {"_id": *k}, &doc! {"$set": {"a": 4}, "$inc": {"o": 1}}, true).map(|_| "ok".into()),
                    What::Del(k) => c.delete(false, &doc! {"_id": *k}).map(|x| x.to_string()),
                    What::UpdMine(t) => c.update(true, &doc! {"o": *t as i32 + 1}, &doc! {"$inc": {"n": 10}}, false).map(|x| format!("{x:?}")),
                    What::DelMine(t) => c.delete(true, &doc! {"o": *t as i32 + 1}).map(|x| x.to_string()),
                };
                let want: Option<String> = match w {
                    What::Ins(k) | What::DupIns(k) => if has(k) { None } else { eff.insert(k.to_string(), Some(dv(*k, if matches!(w, What::Ins(_)) { 5 } else { 9 }))); Some("ok".into()) },
                    What::InsMany(k) => if has(k) || has(&(k + 1)) { None } else { for j in [*k, *k + 1] { eff.insert(j.to_string(), Some(dv(j, 6))); } Some("2".into()) },
                    What::Inc(k) => match current.get(&k.to_string()) { None => Some("(0, 0)".into()), Some(d) => { let mut d = d.clone(); d.insert("n", d.get_i32("n").unwrap() + 1); eff.insert(k.to_string(), Some(d)); Some("(1, 1)".into()) } },
                    What::Set(k) => match current.get(&k.to_string()) { None => Some("(0, 0)".into()), Some(d) => { let mut d = d.clone(); d.insert("a", 3); eff.insert(k.to_string(), Some(d)); None.or(Some("(1, *)".into())) } },
                    What::Upsert(k) => { let d = match current.get(&k.to_string()) { None => doc! {"_id": *k, "a": 4, "o": 1}, Some(d) => { let mut d = d.clone(); d.insert("a", 4); d.insert("o", d.get_i32("o").unwrap() + 1); d } }; eff.insert(k.to_string(), Some(d)); Some("ok".into()) }
                    What::Del(k) => if has(k) { eff.insert(k.to_string(), None); Some("1".into()) } else { Some("0".into()) },
                    What::UpdMine(t) => { let o = *t as i32 + 1; let mut n = 0; for (k, d) in &current { if d.get_i32("o") == Ok(o) { let mut d = d.clone(); match d.get_i32("n") { Ok(x) => { d.insert("n", x + 10); } Err(_) => { d.insert("n", 10); } } eff.insert(k.clone(), Some(d)); n += 1; } } Some(format!("({n}, {n})")) }
                    What::DelMine(t) => { let o = *t as i32 + 1; let mut n = 0; for (k, d) in &current { if d.get_i32("o") == Ok(o) { eff.insert(k.clone(), None); n += 1; } } Some(n.to_string()) }
                };
                let fits = match (&got, live, &want) {
                    (Out::Panic(_), _, _) => false,
                    (Out::Err(_), false, _) => true,
                    // the transaction has ended: a statement which would change nothing may answer so
                    // a collection handle which outlives the dropped transaction keeps it: what it writes is never published
                    (Out::Ok(_), false, _) if t.map_or(false, |t| tx[t].h.is_none()) => true,
                    (Out::Ok(_), false, _) => eff.is_empty() && want.is_some(),
                    (Out::Err(_), true, None) => true,
                    (Out::Ok(_), true, None) => false,
                    (Out::Ok(g), true, Some(w)) => g == w || (w == "(1, *)" && (g == "(1, 0)" || g == "(1, 1)")),
                    (Out::Err(_), true, Some(_)) => false,
                };
                if !fits { return Err(json!({"at": at, "got": format!("{got:?}"), "expected": format!("{want:?}"), "transaction_alive": live})); }
                if live && got.is_ok() && !eff.is_empty() {
                    match t { Some(t) => { tx[t].mine.extend(eff); *wrote = true; } None => { for (k, d) in eff { match d { Some(d) => { committed.insert(k, d); } None => { committed.remove(&k); } } } history.push(committed.clone()); } }
                }
            }
            // what everybody sees
            let seen = view_of(&auto, indexed).map_err(|e| json!({"at": at, "outside": e}))?;
            let want: BTreeMap<String, String> = committed.iter().map(|(k, d)| (crate::model::idkey(&Bson::Int32(k.parse().unwrap())), rdoc(d))).collect();
            if sorted(&seen) != sorted_docs(&want, &committed) { return Err(json!({"at": at, "seen outside": seen, "expected": want})); }
            for (n, t) in tx.iter().enumerate() {
                if !t.live { continue; }
                let seen = view_of(&t.c, indexed).map_err(|e| json!({"at": at, format!("inside {n}"): e}))?;
                let keys: BTreeSet<&String> = history.iter().flat_map(|h| h.keys()).chain(t.mine.keys()).collect();
                let mut expected_keys = 0;
                for k in keys {
                    let id = crate::model::idkey(&Bson::Int32(k.parse().unwrap()));
                    let got = seen.get(&id).cloned();
                    if got.is_some() { expected_keys += 1; }
                    let ok = match t.mine.get(k) {
                        Some(d) => norm(got.as_deref()) == norm(d.as_ref().map(|d| rdoc(d)).as_deref()),
                        None => history[t.since..].iter().any(|h| norm(got.as_deref()) == norm(h.get(k).map(|d| rdoc(d)).as_deref())),
                    };
                    if !ok { return Err(json!({"at": at, "seen inside": n, "key": k, "got": got, "own_write": t.mine.get(k).map(|d| format!("{d:?}"))})); }
                }
                if expected_keys != seen.len() { return Err(json!({"at": at, "seen inside": n, "unknown documents": seen})); }
            }
            rec.state(h64(&(format!("{committed:?}"), tx.iter().map(|t| format!("{:?}{}", t.mine, t.live)).collect::<Vec<_>>())));
        }
        Ok(())
    })();
    drop(tx);
    r?;
    let seen = view_of(&auto, indexed).map_err(|e| json!({"at the end": e}))?;
    let want: BTreeMap<String, String> = committed.iter().map(|(k, d)| (crate::model::idkey(&Bson::Int32(k.parse().unwrap())), rdoc(d))).collect();
    if sorted(&seen) != sorted_docs(&want, &committed) { return Err(json!({"at": "the end", "seen outside": seen, "expected": want})); }
    // nothing stays locked: every key can be written again
    for k in base { match auto.update(true, &doc! {"_id": *k}, &doc! {"$set": {"z": 1}}, false) { Out::Ok(_) => {}, x => return Err(json!({"at": "the end", "update": k, "got": format!("{x:?}")})) } }
    Ok(())
}
/// insertion order of fields added by an upsert is not specified
fn norm(s: Option<&str>) -> Option<String> { s.map(|s| { let mut v: Vec<&str> = s.trim_matches(|c| c == '{' || c == '}').split(", ").collect(); v.sort(); v.join(", ") }) }
fn sorted(m: &BTreeMap<String, String>) -> Vec<(String, String)> { m.iter().map(|(k, v)| (k.clone(), norm(Some(v)).unwrap())).collect() }
fn sorted_docs(m: &BTreeMap<String, String>, _c: &BTreeMap<String, Document>) -> Vec<(String, String)> { sorted(m) }

/// definitions inside a transaction: visible inside, invisible outside before the commit, gone after a rollback
fn txn_ddl(rec: &mut Rec) {
    let ops = vec![
        Op::Ins("k", doc! {"_id": 1, "a": 1}),
        Op::Ins("n", doc! {"_id": 1, "a": 1}),
        Op::Idx { c: "k", field: "a", name: None, unique: false },
        Op::Idx { c: "k", field: "a", name: Some("u"), unique: true },
        Op::DropIdx("k", "o_1"),
        Op::DropColl("k"),
        Op::Ins("k", doc! {"_id": 2, "a": 0, "o": 0}),
        Op::Upd { c: "k", many: true, q: doc! {}, u: doc! {"$inc": {"o": 1}} },
        Op::Del { c: "k", many: true, q: doc! {"o": 0} },
    ];
    let depth = if rec.quick() { 3 } else { 4 };
    let colls = ["k", "n"];
    let fields: Vec<(&'static str, Vec<Bson>)> = vec![("a", vec![Bson::Int32(0), Bson::Int32(1)]), ("o", vec![Bson::Int32(0), Bson::Int32(1)])];
    let mut todo = vec![];
    for how in [How::Commit, How::Rollback, How::Drop] { sequences(ops.len(), depth, |q| { if rec.next() { todo.push((rec.position() - 1, how, q.to_vec())); } }); }
    let mut s = Scratch::with_sentinel(&rec.scratch);
    for (n, (no, how, q)) in todo.into_iter().enumerate() {
        if n % 100 == 99 { s = Scratch::with_sentinel(&rec.scratch); }
        let text: Vec<String> = q.iter().map(|i| ops[*i].text()).collect();
        let key = format!("definitions, {how:?}: {}", text.join("; "));
        rec.begin_at(no, || key.clone());
        rec.eval(Some(h64(&key)));
        let prefix = fresh_name("c");
        let r = (|| -> Result<(), Value> {
            let out = Target { db: s.db(), txn: None, prefix: prefix.clone() };
            let mut base = MDb::default();
            for op in [Op::Ins("k", doc! {"_id": 0, "a": 0, "o": 0}), Op::Idx { c: "k", field: "o", name: None, unique: false }] { base = step(&out, &base, &op, &colls)?; }
            let txn = s.db().start_transaction().map_err(|e| json!({"start": e.to_string()}))?;
            let mut m = base.clone();
            for i in &q {
                let t = Target { db: s.db(), txn: Some(&txn), prefix: prefix.clone() };
                m = step(&t, &m, &ops[*i], &colls)?;
                probe(&t, &m, &colls, &fields)?;
                same(&out, &base, &colls, &fields, "outside, before the end")?;
            }
            let r = match how { How::Commit => call(|| txn.commit()), How::Rollback => call(|| txn.rollback()), How::Drop => { drop(txn); Out::Ok(()) } };
            if !r.is_ok() { return Err(json!({"end": format!("{r:?}")})); }
            same(&out, if how == How::Commit { &m } else { &base }, &colls, &fields, "outside, after the end")
        })();
        if let Err(e) = r { rec.viol(key, e); }
    }
}
fn same(t: &Target, m: &MDb, colls: &[&'static str], fields: &[(&'static str, Vec<Bson>)], what: &str) -> Result<(), Value> {
    let st = t.state(colls).map_err(|e| json!({"problem": e}))?;
    if st != nonempty(mstate(m)) { return Err(json!({what: format!("{st:?}"), "expected": format!("{:?}", nonempty(mstate(m)))})); }
    probe(t, m, colls, fields)
}

// ---------------------------------------------------------------- P33

#[derive(Clone, Copy, Debug, PartialEq)]
enum H { UseC, FindC, UseT, CommitT, RollbackT, DropT, UseTC, DropTC, UseK, DropK, UseTK, DropTK, DropDb, OpenOther, OpenAgain }
const HS: [H; 15] = [H::DropDb, H::UseC, H::FindC, H::UseT, H::CommitT, H::RollbackT, H::DropT, H::UseTC, H::DropTC, H::UseK, H::DropK, H::UseTK, H::DropTK, H::OpenOther, H::OpenAgain];

/// `vx opener PATH`: try to open, say what happened; with a third argument keep it open until stdin ends
pub fn opener(path: &str, hold: bool) -> i32 {
    match Database::open_path(path) {
        Ok(db) => { println!("opened"); if hold { let mut s = String::new(); let _ = db.collection::<Document>("k").insert_one(doc! {"_id": "other process"}); println!("wrote"); let _ = std::io::stdin().read_line(&mut s); } drop(db); 0 }
        Err(_) => { println!("refused"); 3 }
    }
}

fn handles(rec: &mut Rec) {
    quiet_panics();
    ownership(rec);
    let depth = if rec.quick() { 4 } else { 5 };
    let mut todo = vec![];
    for prior in [false, true] {
        sequences(HS.len(), depth, |q| {
            let hs: Vec<H> = q.iter().map(|i| HS[*i]).collect();
            // only histories in which the database is closed before the last step, dropped things are not used again
            if !hs[..hs.len() - 1].contains(&H::DropDb) { return; }
            let once = [H::DropDb, H::DropT, H::DropTC, H::DropK, H::DropTK];
            if once.iter().any(|o| hs.iter().filter(|h| *h == o).count() > 1) { return; }
            for (d, u) in [(H::DropT, vec![H::UseT, H::CommitT, H::RollbackT]), (H::DropTC, vec![H::UseTC]), (H::DropK, vec![H::UseK]), (H::DropTK, vec![H::UseTK])] {
                if let Some(p) = hs.iter().position(|h| *h == d) { if hs[p..].iter().any(|h| u.contains(h)) { return; } }
            }
            if rec.next() { todo.push((rec.position() - 1, prior, hs)); }
        });
    }
    for (no, prior, hs) in todo {
        let key = format!("{}{hs:?}", if prior { "with a document in the transaction: " } else { "" });
        rec.begin_at(no, || key.clone());
        rec.eval(Some(h64(&key)));
        rec.count("traces_validated_against_impl", 1);
        if let Err(e) = handle_case(rec, &hs, prior) { rec.viol(key, e); }
    }
}

fn handle_case(rec: &mut Rec, hs: &[H], prior: bool) -> Result<(), Value> {
    let mut s = Scratch::new(&rec.scratch);
    let auto = Coll::auto(s.db(), "k");
    let mut want: BTreeSet<String> = BTreeSet::new();
    for i in 0..3 { auto.insert(&doc! {"_id": i}).ok().ok_or(json!({"setup": i}))?; want.insert(i.to_string()); }
    let c = s.db().collection::<Document>("k");
    let mut t = Some(s.db().start_transaction().map_err(|e| json!({"setup": e.to_string()}))?);
    let mut tc = Some(t.as_ref().unwrap().collection::<Document>("k"));
    let mut intxn: Vec<String> = vec![];
    if prior { tc.as_ref().unwrap().insert_one(doc! {"_id": "t0"}).map_err(|e| json!({"setup": e.to_string()}))?; intxn.push("\"t0\"".into()); }
    let mut k: Option<ClientCursor<Document>> = Some(c.find(doc! {}).run().map_err(|e| json!({"setup": e.to_string()}))?);
    let mut tk: Option<ClientCursor<Document>> = Some(tc.as_ref().unwrap().find(doc! {}).run().map_err(|e| json!({"setup": e.to_string()}))?);
    drop(auto);
    let mut other: Option<Database> = None;
    let mut ended = false;
    for (i, h) in hs.iter().enumerate() {
        rec.count("transitions", 1);
        let id = format!("w{i}");
        let ok = |r: &Out<()>| if let Out::Panic(p) = r { Err(json!({"step": format!("{i}: {h:?}"), "panic": p})) } else { Ok(()) };
        match h {
            H::DropDb => { let d = s.db.take(); ok(&call(|| { drop(d); Ok(()) }))?; }
            H::UseC => { let r = call(|| c.insert_one(doc! {"_id": &id})).map(|_| ()); ok(&r)?; if r.is_ok() { want.insert(format!("{id:?}")); } }
            H::FindC => { let r = call(|| c.find_one(doc! {"_id": 0})); ok(&r.clone().map(|_| ()))?; if let Out::Ok(None) = r { return Err(json!({"step": i, "problem": "a handle reads no document where there is one"})); } }
            H::UseT => if let Some(t) = &t { let r = call(|| t.collection::<Document>("k").insert_one(doc! {"_id": &id})).map(|_| ()); ok(&r)?; if r.is_ok() { if ended { return Err(json!({"step": i, "problem": "write accepted after the end of the transaction"})); } intxn.push(format!("{id:?}")); } }
            // (a collection handle which outlives the dropped transaction keeps it; what it writes is never published)
            H::UseTC => if let Some(tc) = &tc { let r = call(|| tc.insert_one(doc! {"_id": &id})).map(|_| ()); ok(&r)?; if r.is_ok() { if ended && t.is_some() { return Err(json!({"step": i, "problem": "write accepted after the end of the transaction"})); } intxn.push(format!("{id:?}")); } }
            H::CommitT => if let Some(t) = &t { let r = call(|| t.commit()); ok(&r)?; if r.is_ok() && !ended { want.extend(intxn.drain(..)); ended = true; } }
            H::RollbackT => if let Some(t) = &t { let r = call(|| t.rollback()); ok(&r)?; if r.is_ok() { ended = true; intxn.clear(); } }
            H::DropT => { let x = t.take(); ok(&call(|| { drop(x); Ok(()) }))?; intxn.clear(); ended = true; }
            H::DropTC => { let x = tc.take(); ok(&call(|| { drop(x); Ok(()) }))?; }
            H::UseK => if let Some(k) = &mut k { let r = call(|| k.advance()); ok(&r.map(|_| ()))?; let r = call(|| { let _ = k.deserialize_current(); Ok(()) }); ok(&r)?; }
            H::UseTK => if let Some(k) = &mut tk { let r = call(|| k.advance()); ok(&r.map(|_| ()))?; let r = call(|| { let _ = k.deserialize_current(); Ok(()) }); ok(&r)?; }
            H::DropK => { let x = k.take(); ok(&call(|| { drop(x); Ok(()) }))?; }
            H::DropTK => { let x = tk.take(); ok(&call(|| { drop(x); Ok(()) }))?; }
            H::OpenOther | H::OpenAgain => {
                let had = other.is_some();
                let r = call(|| Database::open_path(&s.path));
                if let Out::Panic(p) = &r { return Err(json!({"step": format!("{i}: {h:?}"), "panic": p})); }
                if let Out::Ok(d) = r {
                    if s.db.is_some() || had { return Err(json!({"step": i, "problem": "opened twice"})); }
                    if let Out::Ok(v) = Coll::auto(&d, "k").all() { let got: BTreeSet<String> = v.iter().map(|x| id_text(x)).collect(); if got != want { return Err(json!({"step": i, "opened again": got, "expected": want})); } } else { return Err(json!({"step": i, "problem": "the new handle cannot read"})); }
                    if *h == H::OpenAgain { other = Some(d); }
                }
            }
        }
    }
    drop(k); drop(tk); drop(tc); drop(t); drop(c); drop(other);
    s.db = None;
    let d = match call(|| Database::open_path(&s.path)) { Out::Ok(d) => d, _ => return Err(json!({"problem": "cannot open after everything has been dropped"})) };
    let got: BTreeSet<String> = match Coll::auto(&d, "k").all() { Out::Ok(v) => v.iter().map(|x| id_text(x)).collect(), x => return Err(json!({"read": format!("{x:?}")})) };
    if got != want { return Err(json!({"at the end": got, "expected": want})); }
    s.db = Some(d);
    Ok(())
}
fn id_text(d: &Document) -> String { match d.get("_id") { Some(Bson::Int32(i)) => i.to_string(), Some(Bson::String(s)) => format!("{s:?}"), x => format!("{x:?}") } }

/// a second opening, in the same process or in another one, under any spelling of the path
fn ownership(rec: &mut Rec) {
    use std::io::{BufRead, BufReader};
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().unwrap();
    for spelling in ["same", "slash", "dot", "relative", "symlink"] { for who in ["this", "other"] { for how in ["normal", "handle outlives", "transaction open", "cursor open", "killed", "after failed open"] {
        if !rec.next() { continue; }
        let key = format!("ownership: {spelling} path, owner {who}, {how}");
        rec.begin(|| key.clone());
        rec.eval(Some(h64(&key)));
        let dir = fresh_path(&rec.scratch);
        std::fs::create_dir_all(&dir).unwrap();
        let real = dir.join("d");
        let other = match spelling { "same" => real.clone(), "slash" => format!("{}/", real.display()).into(), "dot" => dir.join("./x/../d"), "relative" => { std::env::set_current_dir(&dir).unwrap(); "d".into() }
            _ => { std::os::unix::fs::symlink(&dir, dir.with_extension("ln")).unwrap(); dir.with_extension("ln").join("d") } };
        std::fs::create_dir_all(dir.join("x")).unwrap();
        let open_other = |p: &std::path::Path| -> bool { Command::new(&exe).arg("opener").arg(p).stdout(Stdio::piped()).stderr(Stdio::null()).output().map(|o| String::from_utf8_lossy(&o.stdout).contains("opened")).unwrap() };
        let r = (|| -> Result<(), Value> {
            if who == "this" {
                let db = call(|| Database::open_path(&real)).ok().ok_or(json!({"problem": "open"}))?;
                let c = db.collection::<Document>("k");
                c.insert_one(doc! {"_id": 1}).map_err(|e| json!({"insert": e.to_string()}))?;
                let t = db.start_transaction().map_err(|e| json!({"start": e.to_string()}))?;
                let k = c.find(doc! {}).run().map_err(|e| json!({"find": e.to_string()}))?;
                for _ in 0..2 {
                    match call(|| Database::open_path(&other)) { Out::Err(_) => {}, Out::Ok(_) => return Err(json!({"problem": "opened twice in one process"})), Out::Panic(p) => return Err(json!({"panic": p})) }
                    if open_other(&other) { return Err(json!({"problem": "opened by another process while open here"})); }
                }
                // the owner goes on working
                c.insert_one(doc! {"_id": 2}).map_err(|e| json!({"owner": e.to_string()}))?;
                match how { "handle outlives" => { drop(t); drop(k); drop(db); drop(c); } "transaction open" => { drop(k); drop(db); drop(t); drop(c); } "cursor open" => { drop(t); drop(db); drop(k); drop(c); } _ => { drop(t); drop(k); drop(c); drop(db); } }
                if !open_other(&other) { return Err(json!({"problem": "closed, but another process cannot open it"})); }
            } else {
                let mut ch = Command::new(&exe).arg("opener").arg(&real).arg("hold").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
                let mut out = BufReader::new(ch.stdout.take().unwrap());
                let mut l = String::new();
                out.read_line(&mut l).unwrap();
                out.read_line(&mut l).unwrap();
                let r = (|| { if !l.contains("wrote") { return Err(json!({"problem": "the other process could not open", "said": l})); }
                    match call(|| Database::open_path(&other)) { Out::Err(_) => {}, Out::Ok(_) => return Err(json!({"problem": "opened while another process has it open"})), Out::Panic(p) => return Err(json!({"panic": p})) }
                    Ok(()) })();
                if how == "killed" { ch.kill().unwrap(); } else { drop(ch.stdin.take()); }
                let _ = ch.wait();
                r?;
            }
            let db = match call(|| Database::open_path(&other)) { Out::Ok(d) => d, x => return Err(json!({"problem": "cannot open after the owner has gone", "got": format!("{:?}", x.map(|_| ()))})) };
            let n = db.collection::<Document>("k").count_documents().map_err(|e| json!({"count": e.to_string()}))?;
            if n != if who == "this" { 2 } else { 1 } { return Err(json!({"problem": "documents lost", "count": n})); }
            Ok(())
        })();
        std::env::set_current_dir("/").unwrap();
        let _ = std::fs::remove_file(dir.with_extension("ln"));
        let _ = std::fs::remove_dir_all(&dir);
        if let Err(e) = r { rec.viol(key, e); }
    } } }
}
