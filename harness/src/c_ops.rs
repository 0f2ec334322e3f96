//! Access paths, updates, deletes, upserts, inserts, result shaping, pipelines.
use crate::c_query::{atoms, compositions, cube_docs, load};
use crate::gen::*;
use crate::model::*;
use crate::rec::*;
use crate::seq::*;
use crate::util::*;
use bson::{doc, Bson, Document};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn def(id: &'static str, rule: &'static str, run: fn(&mut Rec)) -> CheckDef {
    CheckDef { id, level: "exploration", rule, assumptions: &[], run, preload: None, workers: 8, hang_s: 60 }
}
pub fn register(v: &mut Vec<CheckDef>) {
    v.push(def("P13", "a case is non-trivial when the filter selects some but not all documents or is rejected; distinct = distinct (filter, set of indexes)", |r| { access_paths(r); crate::c_scale::filters(r, true); }));
    v.push(def("P14", "distinct (document, update) pairs whose result differs from the document or which are rejected", |r| { update_operators(r); crate::c_scale::operators(r); }));
    v.push(def("P15", "distinct (filter, update, one/many, indexes) which match at least one document or are rejected", |r| { update_selection(r); crate::c_scale::updates(r); }));
    v.push(def("P16", "distinct (content, filter, update, one/many)", |r| { upserts(r); crate::c_scale::upserts(r); }));
    v.push(def("P17", "distinct (filter, one/many, indexes) which match at least one document or are rejected", |r| { deletes(r); crate::c_scale::deletes(r); }));
    v.push(def("P18", "distinct batches", |r| { inserts(r); crate::c_scale::inserts(r); }));
    v.push(def("P19", "distinct (filter, sort, skip, limit) with a non-empty result", |r| { shaping(r); crate::c_scale::shaping(r); }));
    v.push(def("P20", "distinct pipelines", |r| { pipelines(r); crate::c_scale::pipelines(r); }));
}

/// One collection per set of indexes, all with the same documents.
pub struct Variants { pub s: Scratch, pub m: MColl, pub names: Vec<(String, &'static str)> }
pub fn variants(rec: &Rec, docs: &[Document], sets: &[(&'static str, Vec<&'static str>)], late: bool) -> Variants {
    let s = Scratch::new(&rec.scratch);
    let mut names = vec![];
    for (tag, fields) in sets {
        let n = fresh_name("v");
        let c = Coll::auto(s.db(), &n);
        // half of the fields are indexed before the documents are there, half afterwards
        for (i, f) in fields.iter().enumerate() { if (i % 2 == 0) != late { must(c.create_index(f, None, false)); } }
        for d in docs { must(c.insert(d)); }
        for (i, f) in fields.iter().enumerate() { if (i % 2 == 0) == late { must(c.create_index(f, None, false)); } }
        names.push((n, *tag));
    }
    Variants { s, m: load(docs), names }
}
pub fn must<T: std::fmt::Debug>(o: Out<T>) -> T { match o { Out::Ok(t) => t, x => panic!("harness set-up failed: {x:?}") } }

/// Does `got` (documents) equal the expected identities, unaltered?
fn same_docs(m: &MColl, want: &BTreeSet<String>, got: &[Document]) -> Result<(), Value> {
    let g = set_key(got).map_err(|e| json!({"problem": e}))?;
    if &g != want {
        let miss: Vec<_> = want.difference(&g).take(4).map(|k| rdoc(&m.docs[k])).collect();
        let extra: Vec<_> = g.difference(want).take(4).map(|k| m.docs.get(k).map(rdoc).unwrap_or(k.clone())).collect();
        return Err(json!({"missing": miss, "unexpected": extra}));
    }
    for d in got { let k = idkey(d.get("_id").unwrap()); if rdoc(&m.docs[&k]) != rdoc(d) { return Err(json!({"altered": rdoc(d)})); } }
    Ok(())
}

fn reads(c: &Coll, m: &MColl, q: &Document, want: &Result<BTreeSet<String>, Reject>) -> Result<(), Value> {
    let docs = |what: &str, o: Out<Vec<Document>>| -> Result<(), Value> {
        match (want, o) {
            (Err(_), Out::Err(_)) => Ok(()),
            (Ok(w), Out::Ok(v)) => same_docs(m, w, &v).map_err(|e| json!({"operation": what, "difference": e})),
            (Ok(_), x) => Err(json!({"operation": what, "expected": "accepted", "got": format!("{x:?}")})),
            (Err(e), x) => Err(json!({"operation": what, "expected": format!("rejected: {}", e.0), "got": format!("{:?}", x.map(|v| v.len()))})),
        }
    };
    docs("find", c.find(q))?;
    docs("find.sort", c.find_opts(q, Some(&doc! {"_id": 1}), None, None))?;
    docs("find.limit", c.find_opts(q, None, Some(0), Some(1 << 40)))?;
    docs("aggregate $match", c.aggregate(&[doc! {"$match": q.clone()}]))?;
    docs("aggregate $match $skip 0", c.aggregate(&[doc! {"$match": q.clone()}, doc! {"$skip": 0}]))?;
    match (want, c.find_one(q)) {
        (Err(_), Out::Err(_)) => {}
        (Ok(w), Out::Ok(None)) if w.is_empty() => {}
        (Ok(w), Out::Ok(Some(d))) if w.contains(&idkey(d.get("_id").unwrap_or(&Bson::Null))) && rdoc(&m.docs[&idkey(d.get("_id").unwrap())]) == rdoc(&d) => {}
        (_, x) => return Err(json!({"operation": "find_one", "got": format!("{x:?}"), "expected": format!("one of {want:?}")})),
    }
    match (want, c.aggregate(&[doc! {"$match": q.clone()}, doc! {"$count": "n"}])) {
        (Err(_), Out::Err(_)) => {}
        (Ok(w), Out::Ok(v)) if w.is_empty() && v.is_empty() => {}
        (Ok(w), Out::Ok(v)) if v.len() == 1 && v[0].get_i64("n").ok() == Some(w.len() as i64) => {}
        (_, x) => return Err(json!({"operation": "aggregate $match $count", "got": format!("{x:?}"), "expected": want.as_ref().map(|w| w.len()).ok()})),
    }
    Ok(())
}

fn contents(c: &Coll) -> Result<BTreeMap<String, Document>, Value> {
    match c.all() {
        Out::Ok(v) => { let n = v.len(); let m: BTreeMap<String, Document> = v.into_iter().map(|d| (idkey(d.get("_id").unwrap_or(&Bson::Null)), d)).collect(); if m.len() != n { return Err(json!({"problem": "a document is returned twice"})); } Ok(m) }
        x => Err(json!({"find_all": format!("{x:?}")})),
    }
}

/// update and delete through a transaction which is rolled back
fn writes(s: &Scratch, name: &str, m: &MColl, q: &Document, want: &Result<BTreeSet<String>, Reject>, pair: bool) -> Result<(), Value> {
    for (what, many) in [("update_many", true), ("update_one", false), ("delete_many", true), ("delete_one", false)] {
        if !pair && !many { continue; }
        let t = s.db().start_transaction().unwrap();
        let c = Coll::txn(&t, name);
        let n = match want { Ok(w) => if many { w.len() } else { w.len().min(1) }, Err(_) => 0 };
        let r: Result<(), Value> = (|| {
            let del = what.starts_with("delete");
            let cnt = if del { c.delete(many, q) } else { c.update(many, q, &doc! {"$set": {"zz": "mark"}}, false).map(|(a, b)| if a == b { a } else { u64::MAX }) };
            match (want, &cnt) {
                (Err(_), Out::Err(_)) => {}
                (Ok(_), Out::Ok(k)) if *k == n as u64 => {}
                _ => return Err(json!({"operation": what, "count": format!("{cnt:?}"), "expected": n})),
            }
            let after = contents(&c)?;
            let hit: BTreeSet<String> = m.docs.keys().filter(|k| match after.get(*k) { None => true, Some(d) => d.contains_key("zz") }).cloned().collect();
            let ok = match want { Err(_) => hit.is_empty(), Ok(w) => if many { &hit == w } else { hit.len() == n && hit.is_subset(w) } };
            if !ok || (!del && after.len() != m.docs.len()) { return Err(json!({"operation": what, "touched": format!("{hit:?}"), "expected": format!("{want:?}")})); }
            Ok(())
        })();
        let rb = call(|| t.rollback());
        r?;
        if !rb.is_ok() { return Err(json!({"operation": what, "rollback": format!("{rb:?}")})); }
    }
    Ok(())
}

fn id_queries() -> Vec<Document> {
    let mut v = vec![];
    let ids = [Bson::Int32(3), Bson::Int32(99), Bson::Int64(3), Bson::Double(3.0), Bson::String("3".into()), Bson::Null];
    for i in &ids {
        for r in [doc! {}, doc! {"a": 1}, doc! {"a": {"$ne": 1}}, doc! {"b": {"$gt": 0}, "c": 2}, doc! {"$or": [{"a": 1}, {"b": 2}]}, doc! {"a": {"$foo": 1}}, doc! {"a": {"$not": {"$gt": 0}}}] {
            let mut q = doc! {"_id": i.clone()};
            q.extend(r.clone());
            v.push(q);
            if !r.is_empty() { let mut q = r.clone(); q.insert("_id", i.clone()); v.push(q); }
        }
        for op in ["$eq", "$gt", "$gte", "$lt", "$lte", "$ne"] { v.push(doc! {"_id": {op: i.clone()}}); v.push(doc! {"_id": {op: i.clone()}, "a": 1}); }
        v.push(doc! {"$and": [{"_id": {"$eq": i.clone()}}, {"a": 1}]});
        v.push(doc! {"$or": [{"_id": {"$eq": i.clone()}}, {"a": 1}]});
        v.push(doc! {"_id": {"$in": [i.clone(), 5]}});
        v.push(doc! {"_id": {"$nin": [i.clone(), 5]}, "a": 1});
    }
    v
}

pub const SETS: [(&str, &[&str]); 5] = [("none", &[]), ("a", &["a"]), ("b,a", &["b", "a"]), ("a.b", &["a.b"]), ("a,b,c,a.b", &["a", "b", "c", "a.b"])];
fn sets(n: usize) -> Vec<(&'static str, Vec<&'static str>)> { SETS[..n].iter().map(|(t, f)| (*t, f.to_vec())).collect() }

fn access_paths(rec: &mut Rec) {
    quiet_panics();
    let cube = cube_docs();
    // documents with one value of each type in the indexed field
    let wide: Vec<Document> = wide_docs().into_iter().filter(|d| d.get("a").map_or(true, |v| !matches!(v, Bson::Array(_)) && (indexable(v) || matches!(v, Bson::Document(_)))) && path(d, "a.b").map_or(true, |v| !matches!(v, Bson::Array(_)))).collect();
    let all: Vec<Document> = wide.iter().cloned().chain((0..4).map(|i| doc! {"_id": 1000 + i, "a": 1, "b": i})).collect();
    let mut qs = compositions(rec.thorough());
    qs.extend(id_queries());
    let mut more = atoms("a", rec.thorough());
    more.extend(atoms("a.b", rec.thorough()));
    // an indexed equality with every kind of rest
    for x in scalars() { for r in [doc! {}, doc! {"b": {"$gte": 1}}, doc! {"b": 1, "z": {"$nin": [1]}}, doc! {"$or": [{"b": 0}, {"b": 1}]}, doc! {"$and": [{"b": 0}]}] { let mut q = doc! {"a": x.clone()}; q.extend(r.clone()); more.push(q); if !r.is_empty() { let mut q = r; q.insert("a", x.clone()); more.push(q); } } }
    for x in exotics() { if !matches!(x, Bson::Array(_) | Bson::Document(_)) { more.push(doc! {"a": x.clone(), "_id": {"$gte": 0}}); } more.push(doc! {"a": {"$eq": x}, "_id": {"$gte": 0}}); }
    for (tag, docs, qs) in [("cube", &cube, qs), ("wide", &all, more)] {
        let vs = [variants(rec, docs, &sets(5), false), variants(rec, docs, &sets(3), true)];
        for q in &qs { for (vi, v) in vs.iter().enumerate() { for (name, ix) in &v.names {
            if !rec.next() { continue; }
            rec.begin(|| format!("{tag} indexes {ix}{} filter {}", if vi == 1 { " (late)" } else { "" }, rdoc(q)));
            let want = v.m.matching(q).map(|x| x.into_iter().collect::<BTreeSet<_>>());
            let trivial = want.as_ref().map_or(false, |w| w.is_empty() || w.len() == v.m.docs.len());
            rec.eval(if trivial { None } else { Some(h64(&(tag, ix, vi, q.to_string()))) });
            let c = Coll::auto(v.s.db(), name);
            let mut r = reads(&c, &v.m, q, &want);
            if r.is_ok() && (rec.thorough() || vi == 0) {
                let t = v.s.db().start_transaction().unwrap();
                r = reads(&Coll::txn(&t, name), &v.m, q, &want).map_err(|e| json!({"in_transaction": e}));
                let _ = t.rollback();
            }
            if r.is_ok() { r = writes(&v.s, name, &v.m, q, &want, rec.thorough() || tag == "cube"); }
            if let Err(mut e) = r { e["filter"] = json!(q.to_string()); e["indexes"] = json!(ix); rec.viol(format!("{tag} [{ix}] {}", rdoc(q)), e); }
        } } }
    }
}

// ---------------------------------------------------------------- P14

fn operands(op: &str) -> Vec<Bson> {
    let nums = vec![Bson::Int32(1), Bson::Int32(-1), Bson::Int32(0), Bson::Int32(i32::MAX), Bson::Int32(i32::MIN), Bson::Int64(1), Bson::Int64(i64::MAX), Bson::Int64(i64::MIN), Bson::Int64(1 << 40), Bson::Double(0.5), Bson::Double(-1.0), Bson::Double(f64::INFINITY), Bson::Double(1e308)];
    match op {
        "$inc" | "$mul" => { let mut v = nums; v.extend([Bson::Null, Bson::String("1".into()), Bson::Boolean(true), Bson::Array(vec![Bson::Int32(1)]), Bson::Document(doc! {}), Bson::Decimal128(bson::Decimal128::from_bytes([1; 16])), Bson::DateTime(bson::DateTime::from_millis(1))]); v }
        "$set" | "$push" => { let mut v = scalars(); v.extend(exotics()); v.extend(uncommon()); v }
        "$max" | "$min" => { let mut v = scalars(); v.extend(exotics()); v }
        "$unset" => vec![Bson::String("".into()), Bson::Int32(1)],
        "$pop" => { let mut v = wide_counts(); v.extend(vec![Bson::Int32(1), Bson::Int32(-1), Bson::Int64(1), Bson::Int64(-1), Bson::Int32(0), Bson::Int32(2), Bson::Double(1.0), Bson::String("1".into()), Bson::Null, Bson::Int32(-2), Bson::Int64(-2), Bson::Double(-1.0), Bson::Double(1.5), Bson::Int64(-(1 << 32) - 1), Bson::Int64(-(1 << 32) + 1), Bson::Boolean(true)]); v }
        "$rename" => vec![Bson::String("b".into()), Bson::String("q".into()), Bson::String("a".into()), Bson::String("_id".into()), Bson::Int32(1), Bson::Null],
        _ => vec![],
    }
}
const OPS: [&str; 9] = ["$set", "$inc", "$mul", "$max", "$min", "$unset", "$push", "$pop", "$rename"];

/// the fields which the update does not name keep their values and order
fn untouched(d: &Document, u: &Document) -> Vec<String> {
    let mut named = BTreeSet::new();
    for (op, v) in u { if let Bson::Document(f) = v { for (k, x) in f { named.insert(k.clone()); if op == "$rename" { if let Bson::String(s) = x { named.insert(s.clone()); } } } } }
    d.iter().filter(|(k, _)| !named.contains(*k)).map(|(k, v)| format!("{k}={}", rval(v))).collect()
}

fn check_update(rec: &mut Rec, c: &Coll, tag: &str, d: &Document, u: &Document, upsert: bool) {
    let mut e = d.clone();
    let want = validate_update(u).and_then(|_| apply_update(&mut e, u)).and_then(|a| if e.get("_id") == d.get("_id") { Ok(a) } else { rej("_id is immutable") });
    let interesting = want.is_err() || rdoc(&e) != rdoc(d);
    rec.eval(if interesting { Some(h64(&(tag, rdoc(d), rdoc(u)))) } else { None });
    let id = doc! {"_id": d.get("_id").unwrap().clone()};
    let r: Result<(), Value> = (|| {
        let ins = c.insert(d);
        if !ins.is_ok() { return Err(json!({"insert": format!("{ins:?}")})); }
        let got = c.update(false, &id, u, upsert);
        let now = c.find(&id);
        let now = match &now { Out::Ok(v) if v.len() == 1 => v[0].clone(), x => return Err(json!({"document_after": format!("{x:?}"), "answer": format!("{got:?}")})) };
        match (&want, &got) {
            (_, Out::Panic(p)) => return Err(json!({"panic": p})),
            (Err(x), Out::Ok(_)) => return Err(json!({"expected": format!("rejected: {}", x.0), "got": rdoc(&now)})),
            (Ok(_), Out::Err(x)) => return Err(json!({"expected": rdoc(&e), "got_error": x})),
            (Err(_), Out::Err(_)) => { if rdoc(&now) != rdoc(d) { return Err(json!({"rejected_but_changed": rdoc(&now)})); } }
            (Ok(_), Out::Ok((matched, modified))) => {
                if rsorted(&now) != rsorted(&e) { return Err(json!({"expected": rdoc(&e), "got": rdoc(&now)})); }
                if untouched(&now, u) != untouched(d, u) { return Err(json!({"other_fields": untouched(&now, u), "expected": untouched(d, u)})); }
                let changed = (rsorted(&e) != rsorted(d)) as u64;
                if *matched != 1 || *modified > 1 || *modified < changed { return Err(json!({"matched": matched, "modified": modified, "changed": changed})); }
            }
        }
        Ok(())
    })();
    let _ = c.delete(false, &id);
    if let Err(mut x) = r { x["document"] = json!(rdoc(d)); x["update"] = json!(rdoc(u)); rec.viol(format!("{tag} {} on {}", rdoc(u), rdoc(d)), x); }
}

fn update_operators(rec: &mut Rec) {
    quiet_panics();
    let s = Scratch::new(&rec.scratch);
    let plain = Coll::auto(s.db(), "plain");
    let mut vals: Vec<Option<Bson>> = vec![None];
    vals.extend(scalars().into_iter().map(Some));
    vals.extend(exotics().into_iter().map(Some));
    vals.extend(uncommon().into_iter().map(Some));
    // field order: the touched field first, in the middle, last
    let mk = |a: &Option<Bson>, pos: usize| { let mut d = doc! {"_id": 1}; if let (Some(x), 0) = (a, pos) { d.insert("a", x.clone()); } d.insert("b", "keep"); if let (Some(x), 1) = (a, pos) { d.insert("a", x.clone()); } d.insert("c", doc! {"z": 1, "y": [1, {"w": 2}]}); if let (Some(x), 2) = (a, pos) { d.insert("a", x.clone()); } d };
    for op in OPS {
        for x in operands(op) {
            for v in &vals { for pos in 0..3 {
                if (pos == 0 && v.is_some()) || (pos == 2 && !rec.thorough()) { if !rec.thorough() { continue; } }
                // a NaN compares with nothing
                if matches!(op, "$max" | "$min") && v.as_ref().map_or(false, |v| !comparable(v, &x)) { continue; }
                if !rec.next() { continue; }
                let (d, u) = (mk(v, pos), doc! {op: {"a": x.clone()}});
                rec.begin(|| format!("{} on {}", rdoc(&u), rdoc(&d)));
                check_update(rec, &plain, "plain", &d, &u, false);
            } }
        }
    }
    // every number by every number
    for op in ["$inc", "$mul", "$max", "$min", "$set"] { for v in numbers() { for x in numbers() {
        if matches!(op, "$max" | "$min") && !comparable(&v, &x) { continue; }
        if !rec.next() { continue; }
        let (d, u) = (mk(&Some(v.clone()), 1), doc! {op: {"a": x}});
        rec.begin(|| format!("{} on {}", rdoc(&u), rdoc(&d)));
        check_update(rec, &plain, "number", &d, &u, false);
    } } }
    // operators refused whatever the document
    for u in [doc! {"$foo": {"a": 1}}, doc! {"$set": 1}, doc! {"a": 1}, doc! {"$set": {"_id": 2}}, doc! {"$unset": {"_id": ""}}, doc! {"$inc": {"_id": 1}}, doc! {"$mul": {"_id": 1}}, doc! {"$max": {"_id": 1}}, doc! {"$min": {"_id": 1}}, doc! {"$push": {"_id": 1}}, doc! {"$pop": {"_id": 1}}, doc! {"$rename": {"_id": "a"}}, doc! {"$rename": {"a": "_id"}},
        doc! {"$set": {"a": 1}, "$foo": {"a": 1}}, doc! {"$set": {"a": 5}, "$inc": {"b": 1}}, doc! {"$inc": {"a": "x"}}, doc! {"$mul": {"a": "x"}}, doc! {"$inc": {"a": Bson::Null}}, doc! {"$set": {"a": 2}, "$unset": 1}, doc! {"$pop": {"a": 1, "b": 1}}, doc! {"$push": {"a": 1, "b": 1}}, doc! {"$set": {"zz": 1, "_id": 1}}, doc! {"$rename": {"a": 1}}, doc! {"$unset": "a"}, doc! {"$push": ["a"]}] {
        for v in [Bson::Int32(1), Bson::Int64(2), Bson::Double(0.5), Bson::Null, Bson::String("x".into()), Bson::Array(vec![Bson::Int32(1)])] {
            if !rec.next() { continue; }
            let d = mk(&Some(v), 1);
            rec.begin(|| format!("refused {} on {}", rdoc(&u), rdoc(&d)));
            check_update(rec, &plain, "refused", &d, &u, false);
        }
    }
    // whatever the document, so also where there is none
    for name in ["empty", "absent"] { for many in [false, true] { for txn in [false, true] { for q in [doc! {}, doc! {"_id": 1}, doc! {"a": 1}, doc! {"a": {"$foo": 1}}] { for u in [doc! {"$set": {"a": 1}}, doc! {"$inc": {"a": 1}, "$unset": {"b": 1}}, doc! {"$foo": {"a": 1}}, doc! {"$set": 1}, doc! {"a": 1}, doc! {"$set": {"a": 1}, "$foo": {"a": 1}}, doc! {"$unset": "a"}, doc! {"$push": ["a"]}, doc! {"$rename": {"a": 1}}, doc! {"$inc": {"_id": 1}}, doc! {"$inc": {"a": "x"}}] {
        if !rec.next() { continue; }
        rec.begin(|| format!("{name} many={many} txn={txn} {q} {u}"));
        rec.eval(Some(h64(&(name, many, txn, q.to_string(), u.to_string()))));
        if name == "empty" { call(|| s.db().create_collection("empty")); }
        let t = if txn { Some(s.db().start_transaction().unwrap()) } else { None };
        let c = match &t { Some(t) => Coll::txn(t, name), None => Coll::auto(s.db(), name) };
        let bad = MColl::default().matching(&q).is_err() || validate_update(&u).is_err();
        let r = c.update(many, &q, &u, false);
        let names = call(|| s.db().list_collection_names());
        let absent = names.clone().ok().map_or(false, |n| !n.contains(&"absent".to_string()));
        if (if bad { !r.is_err() } else { r != Out::Ok((0, 0)) }) || !absent { rec.viol(format!("{name} many={many} txn={txn} {q} {u}"), json!({"answer": format!("{r:?}"), "expected": if bad { "refused" } else { "0 0" }, "collections": format!("{names:?}")})); }
    } } } } }
    // pairs: two operators, on the same or on different fields, in both orders; with indexes on both fields
    let idx = Coll::auto(s.db(), "idx");
    must(idx.create_index("a", None, true));
    must(idx.create_index("b", None, false));
    let atoms: Vec<(&str, &str, Bson)> = vec![("$set", "a", Bson::Int32(7)), ("$set", "b", Bson::String("s".into())), ("$inc", "a", Bson::Int32(2)), ("$inc", "b", Bson::Int64(1)), ("$mul", "a", Bson::Double(2.0)), ("$max", "a", Bson::Int32(3)), ("$min", "a", Bson::Int32(0)), ("$max", "b", Bson::String("k".into())), ("$unset", "a", Bson::Int32(1)), ("$unset", "b", Bson::Int32(1)), ("$rename", "a", Bson::String("b".into())), ("$rename", "b", Bson::String("a".into())), ("$rename", "a", Bson::String("n".into())), ("$push", "p", Bson::Int32(1)), ("$pop", "p", Bson::Int32(-1)), ("$set", "p", Bson::Array(vec![Bson::Int32(1), Bson::Int32(2)])), ("$unset", "p", Bson::Int32(1))];
    let bases = [doc! {"_id": 1, "a": 1, "b": 2, "p": [5, 6], "k": 1}, doc! {"_id": 1, "k": 0, "b": 5i64}, doc! {"_id": 1, "a": 2.5, "z": Bson::Null}, doc! {"_id": 1, "p": []}];
    let indexed = |d: &Document| ["a", "b"].iter().all(|f| d.get(*f).map_or(true, |v| indexable(v)));
    for d in &bases { for x in &atoms { for y in &atoms { for third in 0..(if rec.thorough() { atoms.len() + 1 } else { 1 }) {
        let mut u = Document::new();
        let mut list = vec![x, y];
        if third > 0 { list.push(&atoms[third - 1]); }
        let mut clash = false;
        for (op, f, v) in list { let e = u.entry(op.to_string()).or_insert(Bson::Document(doc! {})); let e = e.as_document_mut().unwrap(); if e.contains_key(*f) { clash = true; } e.insert(*f, v.clone()); }
        if clash && third > 0 { continue; }
        if !rec.next() { continue; }
        rec.begin(|| format!("pair {} on {}", rdoc(&u), rdoc(d)));
        check_update(rec, &plain, "pair", d, &u, third % 2 == 0);
        if indexed(d) { check_update(rec, &idx, "pair indexed", d, &u, false); }
    } } } }
    // the lookups through the indexes follow
    for d in &bases { for x in &atoms {
        if !rec.next() { continue; }
        let u = doc! {x.0: {x.1: x.2.clone()}};
        rec.begin(|| format!("lookup after {} on {}", rdoc(&u), rdoc(d)));
        rec.eval(Some(h64(&("lookup", rdoc(&u), rdoc(d)))));
        let mut e = d.clone();
        let ok = apply_update(&mut e, &u).is_ok();
        if !indexed(&e) || !indexed(d) { continue; }
        must(idx.insert(d));
        let r = idx.update(false, &doc! {"_id": 1}, &u, false);
        let want = if ok { &e } else { d };
        for f in ["a", "b"] {
            for p in [d.get(f), e.get(f)].into_iter().flatten() {
                let found = idx.find(&doc! {f: p.clone()});
                let hit = want.get(f).map_or(false, |w| vcmp(w, p) == std::cmp::Ordering::Equal);
                if found != Out::Ok(if hit { vec![want.clone()] } else { vec![] }) { rec.viol(format!("lookup {f} after {} on {}", rdoc(&u), rdoc(d)), json!({"lookup": format!("{f} = {p}"), "got": format!("{found:?}"), "answer": format!("{r:?}")})); }
            }
        }
        must(idx.delete(true, &doc! {}));
    } }
    dotted(rec, &plain);
}

/// a dotted path in an update names the nested field
fn dotted(rec: &mut Rec, c: &Coll) {
    let base = doc! {"_id": 1, "n": {"x": 1, "p": [1]}};
    for (u, want) in [(doc! {"$set": {"n.x": 5}}, doc! {"x": 5, "p": [1]}), (doc! {"$inc": {"n.x": 5}}, doc! {"x": 6, "p": [1]}), (doc! {"$unset": {"n.x": ""}}, doc! {"p": [1]}), (doc! {"$push": {"n.p": 2}}, doc! {"x": 1, "p": [1, 2]})] {
        if !rec.next() { continue; }
        rec.begin(|| format!("dotted {}", rdoc(&u)));
        rec.eval(Some(h64(&("dotted", rdoc(&u)))));
        must(c.insert(&base));
        let r = c.update(false, &doc! {"_id": 1}, &u, false);
        let d = must(c.find_one(&doc! {"_id": 1}));
        let good = match &r { Out::Ok(_) => d == Some(doc! {"_id": 1, "n": want.clone()}), Out::Err(_) => d == Some(base.clone()), _ => false };
        if !good { rec.viol(format!("dotted {}", u.keys().next().unwrap()), json!({"update": u.to_string(), "got": format!("{d:?}"), "answer": format!("{r:?}"), "expected": format!("n = {want}, or an error")})); }
        must(c.delete(true, &doc! {}));
    }
}

// ---------------------------------------------------------------- P15

fn small_docs() -> Vec<Document> {
    let mut v = vec![];
    let vals: [Option<Bson>; 4] = [None, Some(Bson::Int32(1)), Some(Bson::Int32(2)), Some(Bson::String("x".into()))];
    let mut n = 0;
    for a in &vals { for b in &vals[..3] { let mut d = doc! {"_id": n}; n += 1; if let Some(x) = a { d.insert("a", x.clone()); } if let Some(x) = b { d.insert("b", x.clone()); } v.push(d); } }
    v
}
fn filters(thorough: bool) -> Vec<Document> {
    let mut v = vec![doc! {}, doc! {"_id": 4}, doc! {"_id": 4, "a": 1}, doc! {"_id": 4, "a": 2}, doc! {"_id": 77}, doc! {"_id": {"$gte": 5}}, doc! {"a": 1}, doc! {"a": 2}, doc! {"a": 9}, doc! {"a": "x"}, doc! {"a": {"$gt": 0}}, doc! {"a": {"$gte": 1, "$lt": 2}}, doc! {"a": {"$in": [1, 2]}}, doc! {"a": {"$nin": [1]}}, doc! {"a": {"$ne": 1}}, doc! {"a": {"$not": {"$gt": 1}}},
        doc! {"a": 1, "b": 2}, doc! {"b": 2, "a": 1}, doc! {"a": 1, "b": {"$gt": 0}}, doc! {"b": 1}, doc! {"$or": [{"a": 1}, {"b": 1}]}, doc! {"$and": [{"a": 1}, {"b": 1}]}, doc! {"$or": [{"a": 1}, {"a": 1}]}, doc! {"a": 1, "$or": [{"b": 1}, {"b": 2}]}, doc! {"a": {"$foo": 1}}, doc! {"$or": []}, doc! {"a": [1]}];
    if thorough { v.extend(compositions(false).into_iter().filter(|d| !d.to_string().contains("\"c\""))); }
    v
}

fn update_selection(rec: &mut Rec) {
    quiet_panics();
    let docs = small_docs();
    let updates = vec![
        doc! {"$set": {"z": 1}}, doc! {"$inc": {"b": 1}}, doc! {"$set": {"a": 2}}, doc! {"$set": {"a": 1}}, doc! {"$set": {"a": 0}}, doc! {"$unset": {"a": ""}}, doc! {"$rename": {"b": "a"}}, doc! {"$rename": {"a": "b"}}, doc! {"$max": {"a": 2}}, doc! {"$min": {"a": 1}}, doc! {"$push": {"l": 1}}, doc! {"$pop": {"l": 1}}, doc! {"$inc": {"a": 1}}, doc! {"$set": {"a": 3, "b": 3}}, doc! {"$mul": {"b": 0}}, doc! {"$set": {"_id": 9}}, doc! {}, doc! {"$unset": {"q": 1}}, doc! {"$set": {"b": 1}, "$inc": {"n": 1}}, doc! {"$set": {"a": "x"}}, doc! {"$set": {"a": [1]}},
    ];
    let sets: Vec<(&str, Vec<(&str, bool)>)> = vec![("none", vec![]), ("a", vec![("a", false)]), ("a,b", vec![("a", false), ("b", false)]), ("unique a (few)", vec![("a", true)])];
    for (tag, ix) in &sets {
        let uniq = ix.iter().any(|x| x.1);
        let docs: Vec<Document> = if uniq { vec![doc! {"_id": 1, "a": 1}, doc! {"_id": 2, "a": 2, "b": 1}, doc! {"_id": 3, "b": 1}, doc! {"_id": 4, "a": "x", "b": 2}] } else { docs.clone() };
        let mut s = Scratch::new(&rec.scratch);
        let mut n = 0;
        for q in filters(rec.thorough()) { for u in &updates { for many in [true, false] { for txn in [false, true] {
            if !rec.next() { continue; }
            rec.begin(|| format!("[{tag}] {} update_{}({}, {})", if txn { "txn" } else { "auto" }, if many { "many" } else { "one" }, q, u));
            n += 1;
            if n % 100 == 0 { s = Scratch::new(&rec.scratch); }
            let prefix = format!("u{n}");
            let name = format!("{prefix}k");
            let c = Coll::auto(s.db(), &name);
            let mut m = MDb::default();
            let mc = m.colls.entry("k".into()).or_default();
            for (f, un) in ix { must(c.create_index(f, None, *un)); mc.create_index(&format!("{f}_1"), f, *un).unwrap(); }
            for d in &docs { must(c.insert(d)); mc.insert(d).unwrap(); }
            let op = Op::Upd { c: "k", many, q: q.clone(), u: u.clone() };
            let t = if txn { Some(s.db().start_transaction().unwrap()) } else { None };
            let tg = Target { db: s.db(), txn: t.as_ref(), prefix: prefix.clone() };
            let r = step(&tg, &m, &op, &["k"]);
            let interesting = matches!(mc_match(&m, &q), Err(_)) || mc_match(&m, &q).map_or(false, |n| n > 0);
            rec.eval(if interesting { Some(h64(&(tag, q.to_string(), u.to_string(), many))) } else { None });
            let r = r.and_then(|m2| {
                if let Some(t) = &t { t.commit().map_err(|e| json!({"commit": e.to_string()}))?; }
                let tg = Target { db: s.db(), txn: None, prefix: prefix.clone() };
                probe(&tg, &m2, &["k"], &[("a", vec![Bson::Int32(1), Bson::Int32(2), Bson::String("x".into())]), ("b", vec![Bson::Int32(1), Bson::Int32(2), Bson::Int32(3)])])
            });
            if let Err(mut e) = r { e["filter"] = json!(q.to_string()); rec.viol(format!("[{tag}] {} update_{} {} {}", if txn { "txn" } else { "auto" }, if many { "many" } else { "one" }, q, u), e); }
            drop(t);
            must(c.drop_coll());
        } } } }
    }
}
fn mc_match(m: &MDb, q: &Document) -> Result<usize, Reject> { m.colls["k"].matching(q).map(|v| v.len()) }


// ---------------------------------------------------------------- P17

fn deletes(rec: &mut Rec) {
    quiet_panics();
    let sets: Vec<(&str, Vec<(&str, bool)>)> = vec![("none", vec![]), ("a", vec![("a", false)]), ("b,a", vec![("b", false), ("a", false)]), ("unique a (few)", vec![("a", true)])];
    for (tag, ix) in &sets {
        let uniq = ix.iter().any(|x| x.1);
        let docs: Vec<Document> = if uniq { vec![doc! {"_id": 1, "a": 1}, doc! {"_id": 2, "a": 2, "b": 1}, doc! {"_id": 3, "b": 1}, doc! {"_id": 4, "a": "x", "b": 2}] } else { small_docs() };
        let mut s = Scratch::new(&rec.scratch);
        let mut n = 0;
        let qs0 = filters(false);
        let mut qs = filters(true);
        if rec.thorough() { qs.extend(compositions(true)); qs.extend(atoms("a", true)); }
        for q in qs { for many in [true, false] { for mode in 0..3 {
            if rec.quick() && (mode > 0 || *tag == "b,a") && !qs0.contains(&q) { continue; }
            if !rec.next() { continue; }
            rec.begin(|| format!("[{tag}] {} delete_{}({q})", ["auto", "txn", "txn after other writes"][mode], if many { "many" } else { "one" }));
            n += 1;
            if n % 100 == 0 { s = Scratch::new(&rec.scratch); }
            let prefix = format!("u{n}");
            let c = Coll::auto(s.db(), &format!("{prefix}k"));
            let mut m = MDb::default();
            let mc = m.colls.entry("k".into()).or_default();
            for (f, un) in ix { must(c.create_index(f, None, *un)); mc.create_index(&format!("{f}_1"), f, *un).unwrap(); }
            for d in &docs { must(c.insert(d)); mc.insert(d).unwrap(); }
            let op = Op::Del { c: "k", many, q: q.clone() };
            let t = if mode > 0 { Some(s.db().start_transaction().unwrap()) } else { None };
            let tg = Target { db: s.db(), txn: t.as_ref(), prefix: prefix.clone() };
            let hits = mc_match(&m, &q);
            rec.eval(if hits.as_ref().map_or(true, |n| *n > 0) { Some(h64(&(tag, q.to_string(), many, mode))) } else { None });
            let mut r: Result<MDb, Value> = Ok(m.clone());
            if mode == 2 {
                for o in [Op::Ins("k", doc! {"_id": 50, "a": 2, "c": 2}), Op::Upd { c: "k", many: false, q: doc! {"_id": 4}, u: doc! {"$set": {"a": 5}} }, Op::Del { c: "k", many: false, q: doc! {"_id": 2} }] { r = r.and_then(|m| step(&tg, &m, &o, &["k"])); }
            }
            r = r.and_then(|m| step(&tg, &m, &op, &["k"]));
            let r = r.and_then(|m2| {
                if let Some(t) = &t { t.commit().map_err(|e| json!({"commit": e.to_string()}))?; }
                let tg = Target { db: s.db(), txn: None, prefix: prefix.clone() };
                probe(&tg, &m2, &["k"], &[("a", vec![Bson::Int32(1), Bson::Int32(2), Bson::Int32(5), Bson::String("x".into())]), ("b", vec![Bson::Int32(1), Bson::Int32(2)])])?;
                // the same deletion again removes what is still there
                step(&tg, &m2, &op, &["k"]).map(|_| ())
            });
            if let Err(mut e) = r { e["filter"] = json!(q.to_string()); rec.viol(format!("[{tag}] mode {mode} delete_{} {}", if many { "many" } else { "one" }, q), e); }
            drop(t);
            must(c.drop_coll());
        } } }
    }
    // a collection which does not exist
    for txn in [false, true] { for many in [false, true] { for q in [doc! {}, doc! {"_id": 1}, doc! {"a": 1}] {
        if !rec.next() { continue; }
        rec.begin(|| format!("missing collection txn={txn} many={many} {q}"));
        rec.eval(Some(h64(&("missing", txn, many, q.to_string()))));
        let s = Scratch::new(&rec.scratch);
        let t = if txn { Some(s.db().start_transaction().unwrap()) } else { None };
        let c = match &t { Some(t) => Coll::txn(t, "nope"), None => Coll::auto(s.db(), "nope") };
        let r = (c.delete(many, &q), c.update(many, &q, &doc! {"$set": {"a": 1}}, false));
        let cm = t.as_ref().map_or(true, |t| t.commit().is_ok());
        let names = call(|| s.db().list_collection_names());
        if r != (Out::Ok(0), Out::Ok((0, 0))) || !cm || names != Out::Ok(vec![]) { rec.viol(format!("missing collection txn={txn} many={many} {q}"), json!({"answers": format!("{r:?}"), "collections": format!("{names:?}")})); }
    } } }
}

// ---------------------------------------------------------------- P16

/// the equality conditions of a filter, when it is made of nothing else
fn equalities(q: &Document) -> Option<Document> {
    let mut d = Document::new();
    for (k, v) in q {
        match v {
            Bson::Document(o) => { if o.len() == 1 && o.contains_key("$eq") { d.insert(k.clone(), o.get("$eq").unwrap().clone()); } else { return None; } }
            Bson::Array(_) => return None,
            _ => { if k.starts_with('$') { return None; } d.insert(k.clone(), v.clone()); }
        }
    }
    Some(d)
}

fn upserts(rec: &mut Rec) {
    quiet_panics();
    let contents: Vec<Vec<Document>> = vec![vec![], vec![doc! {"_id": 1, "a": 1}], vec![doc! {"_id": 1, "a": 1, "b": 1}, doc! {"_id": 2, "a": 1}, doc! {"_id": 3, "b": 2}]];
    let qs = vec![doc! {"_id": 1}, doc! {"_id": 5}, doc! {"_id": 5, "a": 1}, doc! {"_id": 1, "a": 2}, doc! {"a": 1}, doc! {"a": 2}, doc! {"a": 2, "b": 3}, doc! {"a": {"$eq": 2}}, doc! {"a": {"$eq": 1}}, doc! {"b": "x"}, doc! {"a": {"$gt": 5}}, doc! {"a": 1, "b": {"$gt": 5}}, doc! {"$or": [{"a": 7}, {"a": 8}]}, doc! {"$and": [{"a": 7}, {"b": 8}]}, doc! {"a": {"$in": [7]}}, doc! {}, doc! {"a": {"$foo": 1}}, doc! {"a": Bson::Null}];
    let us = vec![doc! {"$set": {"c": 1}}, doc! {"$set": {"a": 9}}, doc! {"$set": {"b": 3, "c": {"d": 1}}}, doc! {"$set": {"a": 1, "b": 1}}, doc! {"$inc": {"n": 1}}, doc! {"$set": {"c": 1}, "$inc": {"n": 1}}, doc! {"$push": {"l": 1}}, doc! {"$unset": {"a": 1}}, doc! {"$set": {"_id": 7}}, doc! {"$foo": {"a": 1}}, doc! {"$max": {"m": 3}}, doc! {"$set": {}}, doc! {}, doc! {"$set": {"a": "x"}, "$unset": {"b": 1}}, doc! {"$rename": {"a": "q"}}, doc! {"$mul": {"n": 3}}];
    let ixs: [(&str, &[(&str, bool)]); 3] = [("none", &[]), ("a", &[("a", false)]), ("unique b", &[("b", true)])];
    let mut s = Scratch::new(&rec.scratch);
    let mut n = 0;
    for (ti, ix) in ixs { for (ci, docs) in contents.iter().enumerate() { for q in &qs { for u in &us { for many in [false, true] { for txn in [false, true] {
        if !rec.next() { continue; }
        rec.begin(|| format!("[{ti}] content {ci} {} upsert_{}({q}, {u})", if txn { "txn" } else { "auto" }, if many { "many" } else { "one" }));
        rec.eval(Some(h64(&(ti, ci, q.to_string(), u.to_string(), many))));
        n += 1;
            if n % 100 == 0 { s = Scratch::new(&rec.scratch); }
        let name = format!("u{n}");
        let base = Coll::auto(s.db(), &name);
        let mut m = MColl::default();
        for (f, un) in ix { must(base.create_index(f, None, *un)); m.create_index(&format!("{f}_1"), f, *un).unwrap(); }
        for d in docs { must(base.insert(d)); m.insert(d).unwrap(); }
        let t = if txn { Some(s.db().start_transaction().unwrap()) } else { None };
        let c = match &t { Some(t) => Coll::txn(t, &name), None => Coll::auto(s.db(), &name) };
        let r = upsert_case(&c, &m, docs, q, u, many);
        let r = r.and_then(|after| {
            if let Some(t) = &t { t.commit().map_err(|e| json!({"commit": e.to_string()}))?; }
            let now = contents_of(&base)?;
            if now != after { return Err(json!({"after_commit": format!("{now:?}"), "expected": format!("{after:?}")})); }
            for (f, _) in ix { for d in now.values() { if let Some(v) = d.get(*f) { if indexable(v) {
                let got = base.find(&doc! {*f: v.clone()});
                let want: BTreeSet<String> = now.iter().filter(|(_, e)| e.get(*f).map_or(false, |w| vcmp(w, v) == std::cmp::Ordering::Equal)).map(|(k, _)| k.clone()).collect();
                if got.clone().ok().and_then(|g| set_key(&g).ok()) != Some(want) { return Err(json!({"lookup": format!("{f} = {v}"), "got": format!("{got:?}")})); }
            } } } }
            Ok(())
        });
        if let Err(mut e) = r { e["filter"] = json!(q.to_string()); rec.viol(format!("[{ti}] content {ci} {} upsert_{} {q} {u}", if txn { "txn" } else { "auto" }, if many { "many" } else { "one" }), e); }
        drop(t);
        if txn { must(base.drop_coll()); } else { must(base.drop_coll()); }
    } } } } } }
}

fn contents_of(c: &Coll) -> Result<BTreeMap<String, Document>, Value> { contents(c) }

/// returns the contents afterwards
fn upsert_case(c: &Coll, m: &MColl, docs: &[Document], q: &Document, u: &Document, many: bool) -> Result<BTreeMap<String, Document>, Value> {
    let before = contents(c)?;
    let ans = c.update(many, q, u, true);
    let after = contents(c)?;
    let fail = |what: &str| Err(json!({"problem": what, "answer": format!("{ans:?}"), "before": format!("{before:?}"), "after": format!("{after:?}")}));
    if let Out::Panic(p) = &ans { return Err(json!({"panic": p})); }
    let matched = m.matching(q);
    let bad = matched.is_err() || validate_update(u).is_err();
    if !ans.is_ok() {
        if before != after { return fail("an error, and the data changed"); }
        if bad { return Ok(after); }
        let ks = matched.as_ref().unwrap();
        if ks.is_empty() {
            // refusing is allowed only where the result is not defined, or breaks a rule
            let eq = equalities(q);
            if eq.is_some() && u.keys().all(|k| k == "$set") && !u.is_empty() {
                let mut d = eq.unwrap();
                for (k, v) in u.get_document("$set").unwrap() { d.insert(k.clone(), v.clone()); }
                let taken = d.get("_id").map_or(false, |i| m.docs.contains_key(&idkey(i)));
                if !taken && m.admit(&d, "").is_ok() { return fail("refused"); }
            }
            return Ok(after);
        }
        // the update of the matching documents must be impossible
        let db = MDb { colls: [("k".to_string(), m.clone())].into() };
        let alts = model_step(&db, &Op::Upd { c: "k", many, q: q.clone(), u: u.clone() });
        if alts.iter().any(|a| matches!(a.1, Expect::Rejected(_))) { return Ok(after); }
        return fail("refused");
    }
    if bad { return fail("a malformed filter or update was accepted"); }
    let (mt, _) = ans.clone().ok().unwrap();
    let ks = matched.unwrap();
    if !ks.is_empty() {
        // exactly an update
        let db = MDb { colls: [("k".to_string(), m.clone())].into() };
        let alts = model_step(&db, &Op::Upd { c: "k", many, q: q.clone(), u: u.clone() });
        let ok = alts.iter().any(|(d, e)| agrees(e, &ans.clone().map(|(a, b)| Resp::Update(a, b))) && d.colls["k"].docs.iter().map(|(k, d)| (k.clone(), rsorted(d))).collect::<BTreeMap<_, _>>() == after.iter().map(|(k, d)| (k.clone(), rsorted(d))).collect());
        return if ok { Ok(after) } else { fail("an upsert with a match is an update") };
    }
    if mt != 0 && mt != 1 { return fail("matched count of an insertion"); }
    // exactly one new document, of the equality conditions and the fields which the update sets
    let new: Vec<&Document> = after.iter().filter(|(k, _)| !before.contains_key(*k)).map(|(_, d)| d).collect();
    if new.len() != 1 || before.iter().any(|(k, d)| after.get(k).map(rdoc) != Some(rdoc(d))) { return fail("exactly one document must have been inserted"); }
    let _ = docs;
    let new = new[0].clone();
    if let Some(eq) = equalities(q) {
        let mut want = eq.clone();
        let applied = apply_update(&mut want, u);
        if applied.is_ok() {
            let mut got = new.clone();
            if !want.contains_key("_id") { got.remove("_id"); }
            if rsorted(&got) != rsorted(&want) { return Err(json!({"problem": "the inserted document", "got": rdoc(&new), "expected": rdoc(&want)})); }
        }
        // a second identical upsert matches it, unless the update made it leave the filter
        if matches(&new, q) == Ok(true) {
            let again = c.update(many, q, u, true);
            let third = contents(c)?;
            if third.len() != after.len() { return Err(json!({"problem": "a second identical upsert inserted again", "answer": format!("{again:?}"), "after": format!("{third:?}")})); }
            return Ok(third);
        }
    } else {
        // operators of the filter are conditions, not fields
        if new.keys().any(|k| k.starts_with('$')) || new.values().any(|v| v.as_document().map_or(false, |d| d.keys().any(|k| k.starts_with('$')))) { return Err(json!({"problem": "operators stored as data", "got": rdoc(&new)})); }
        for op in ["$set", "$inc", "$max"] { if let Ok(f) = u.get_document(op) { for (k, v) in f { if new.get(k) != Some(v) { return Err(json!({"problem": "a field which the update sets is missing", "got": rdoc(&new)})); } } } }
    }
    Ok(after)
}

// ---------------------------------------------------------------- P18

fn inserts(rec: &mut Rec) {
    quiet_panics();
    // elements of a batch: explicit, missing, duplicate, null and refused identifiers, unique and broken fields
    let el: Vec<(Document, bool)> = vec![
        (doc! {"_id": 1, "a": 1}, true), (doc! {"_id": 1, "x": 2}, true), (doc! {"_id": "1", "a": 2}, true), (doc! {"a": 3}, true), (doc! {"x": 1}, true), (doc! {}, true), (doc! {"_id": oid(3), "a": 1}, true), (doc! {"_id": [1]}, false), (doc! {"_id": Bson::Null}, true), (doc! {"x": 1, "_id": 7i64}, true), (doc! {"_id": 7.0, "a": Bson::Null}, true),
        (doc! {"_id": 8, "a": [1]}, true),
    ];
    let depth = if rec.thorough() { 4 } else { 3 };
    let mut s = Scratch::new(&rec.scratch);
    let mut n = 0;
    for len in 0..=depth { for pre in [false, true] { for ix in [None, Some(false), Some(true)] { for txn in [false, true] {
        sequences(el.len(), len, |q| {
            if !rec.next() { return; }
            let batch: Vec<Document> = q.iter().map(|i| el[*i].0.clone()).collect();
            rec.begin(|| format!("insert {:?} pre={pre} index={ix:?} txn={txn}", batch.iter().map(|d| d.to_string()).collect::<Vec<_>>()));
            n += 1;
            if n % 100 == 0 { s = Scratch::new(&rec.scratch); }
            let name = format!("u{n}");
            let base = Coll::auto(s.db(), &name);
            let mut m = MColl::default();
            if let Some(un) = ix { must(base.create_index("a", None, un)); m.create_index("a_1", "a", un).unwrap(); }
            if pre { must(base.insert(&doc! {"_id": "1", "old": 1})); m.insert(&doc! {"_id": "1", "old": 1}).unwrap(); }
            // expected: ids of the documents without one are fresh, so they never clash
            let mut ok = !batch.is_empty();
            let mut want = m.clone();
            for (i, d) in batch.iter().enumerate() { let mut d = d.clone(); if no_id(&d) { d.insert("_id", Bson::String(format!("fresh {i}"))); } if want.insert(&d).is_err() { ok = false; break; } }
            let one_ok = batch.is_empty() || ok;
            rec.eval(Some(h64(&(format!("{q:?}"), pre, ix, txn))));
            for single in [false, true] {
                if single && batch.len() != 1 { continue; }
                if single { must(base.delete(true, &doc! {})); if pre { must(base.insert(&doc! {"_id": "1", "old": 1})); } }
                let t = if txn { Some(s.db().start_transaction().unwrap()) } else { None };
                let c = match &t { Some(t) => Coll::txn(t, &name), None => Coll::auto(s.db(), &name) };
                let r: Result<(), Value> = (|| {
                    let got = if single { c.insert(&batch[0]).map(|i| vec![(0, i)]) } else { c.insert_many(&batch) };
                    if let Some(t) = &t { t.commit().map_err(|e| json!({"commit": e.to_string()}))?; }
                    let now = contents(&base)?;
                    match &got {
                        Out::Panic(p) => return Err(json!({"panic": p})),
                        Out::Err(e) => { if one_ok && !batch.is_empty() { return Err(json!({"expected": "accepted", "error": e})); } if now.len() != m.docs.len() || m.docs.iter().any(|(k, d)| now.get(k).map(rdoc) != Some(rdoc(d))) { return Err(json!({"problem": "an error, and the data changed", "after": format!("{now:?}")})); } }
                        Out::Ok(ids) => {
                            if !one_ok { return Err(json!({"expected": "rejected", "got": format!("{ids:?}")})); }
                            if ids.len() != batch.len() || now.len() != m.docs.len() + batch.len() { return Err(json!({"ids": format!("{ids:?}"), "documents": now.len(), "expected": batch.len()})); }
                            for (pos, id) in ids {
                                let d = &batch[*pos];
                                if let (Some(x), false) = (d.get("_id"), no_id(d)) { if rval(x) != rval(id) { return Err(json!({"position": pos, "reported": rval(id), "document": rdoc(d)})); } }
                                let found = base.find(&doc! {"_id": id.clone()}).ok().unwrap_or_default();
                                if found.len() != 1 { return Err(json!({"position": pos, "reported": rval(id), "found": found.len()})); }
                                let mut f = found[0].clone();
                                if no_id(d) { f.remove("_id"); }
                                let mut d = d.clone(); if no_id(&d) { d.remove("_id"); }
                                if rsorted(&f) != rsorted(&d) { return Err(json!({"position": pos, "stored": rdoc(&found[0]), "given": rdoc(&d)})); }
                            }
                        }
                    }
                    let k = base.count();
                    if k != Out::Ok(now.len() as u64) { return Err(json!({"count": format!("{k:?}"), "documents": now.len()})); }
                    if ix.is_some() { for d in now.values() { if let Some(v) = d.get("a") { let f = base.find(&doc! {"a": v.clone()}).ok().unwrap_or_default(); if !f.iter().any(|x| x.get("_id") == d.get("_id")) { return Err(json!({"not found by its index": rdoc(d)})); } } } }
                    Ok(())
                })();
                if let Err(mut e) = r { e["batch"] = json!(batch.iter().map(rdoc).collect::<Vec<_>>()); rec.viol(format!("insert {:?} pre={pre} index={ix:?} txn={txn} single={single}", batch.iter().map(|d| d.to_string()).collect::<Vec<_>>()), e); }
            }
            let _ = base.drop_coll();
        });
    } } } }
    // fresh identifiers are fresh
    if rec.next() {
        rec.begin(|| "2000 generated identifiers".into());
        let c = Coll::auto(s.db(), "gen");
        let mut ids = BTreeSet::new();
        for i in 0..20 { let b: Vec<Document> = (0..100).map(|j| doc! {"n": i * 100 + j}).collect(); for (_, id) in must(c.insert_many(&b)) { ids.insert(rval(&id)); } }
        rec.eval(Some(1));
        if ids.len() != 2000 || c.count() != Out::Ok(2000) { rec.viol("generated identifiers", json!({"distinct": ids.len()})); }
    }
}

// ---------------------------------------------------------------- P19

fn shape_model(base: &[Document], sort: Option<&Document>, skip: Option<u64>, limit: Option<u64>) -> Vec<Document> {
    let mut v = base.to_vec();
    if let Some(s) = sort { v.sort_by(|a, b| sort_cmp(a, b, s)); }
    let v: Vec<Document> = v.into_iter().skip(skip.unwrap_or(0).min(1 << 40) as usize).collect();
    v.into_iter().take(limit.unwrap_or(u64::MAX).min(1 << 40) as usize).collect()
}

fn shaping(rec: &mut Rec) {
    quiet_panics();
    let mixed: Vec<Document> = { let mut v = wide_docs(); for (i, d) in v.iter_mut().enumerate() { d.insert("g", (i as i32 * 7) % 3); } v };
    let cube = cube_docs();
    let nested: Vec<Document> = (0..9).map(|i| match i % 3 { 0 => doc! {"_id": i, "n": {"x": 9 - i}}, 1 => doc! {"_id": i, "n": {"x": i, "y": 1}}, _ => doc! {"_id": i, "n": i} }).collect();
    let one: Vec<Document> = vec![doc! {"_id": 1, "a": 1}];
    let s = Scratch::new(&rec.scratch);
    let skips = [None, Some(0), Some(1), Some(2), Some(5), Some(1000), Some(u64::MAX), Some(1 << 63)];
    let limits = [None, Some(0), Some(1), Some(2), Some(7), Some(1000), Some(u64::MAX), Some(1 << 63)];
    for (tag, docs, keys, qs) in [
        ("mixed", &mixed, vec!["a", "g", "_id"], vec![doc! {}, doc! {"g": 1}, doc! {"a": {"$gt": 0}}]),
        ("cube", &cube, vec!["a", "b", "c"], vec![doc! {}, doc! {"a": 1}, doc! {"b": {"$gt": 0}}, doc! {"$or": [{"a": 1}, {"c": 2}]}, doc! {"a": 77}]),
        ("nested", &nested, vec!["n.x", "n", "n.y", "zz"], vec![doc! {}]),
        ("one", &one, vec!["a"], vec![doc! {}]),
        ("empty", &vec![], vec!["a"], vec![doc! {}]),
    ] {
        for ix in [false, true] {
            if ix && tag != "cube" { continue; }
            let name = format!("{tag}{ix}");
            let c = Coll::auto(s.db(), &name);
            if ix { must(c.create_index("a", None, false)); must(c.create_index("b", None, false)); }
            for d in docs { must(c.insert(d)); }
            let m = load(docs);
            let mut sorts: Vec<Option<Document>> = vec![None, Some(doc! {})];
            for k in &keys { for d in [1, -1] { sorts.push(Some(doc! {*k: d})); for l in &keys { if l != k { for e in [1, -1] { sorts.push(Some(doc! {*k: d, *l: e as i64})); if rec.thorough() { for o in &keys { if o != k && o != l { for f in [1, -1] { sorts.push(Some(doc! {*k: d, *l: e, *o: f})); } } } } } } } } }
            for q in &qs { for sort in &sorts { for skip in skips { for limit in limits {
                if !rec.next() { continue; }
                rec.begin(|| format!("{name}: find {q} sort {sort:?} skip {skip:?} limit {limit:?}"));
                let base = match c.find(q) { Out::Ok(v) => v, x => { rec.viol(format!("{name} find {q}"), json!({"got": format!("{x:?}")})); continue; } };
                if set_key(&base).ok() != m.matching(q).ok().map(|v| v.into_iter().collect()) { rec.viol(format!("{name} find {q}"), json!({"problem": "wrong selection"})); continue; }
                let want = shape_model(&base, sort.as_ref(), skip, limit);
                rec.eval(if want.is_empty() { None } else { Some(h64(&(&name, q.to_string(), format!("{sort:?}{skip:?}{limit:?}")))) });
                let mut got = vec![("find", c.find_opts(q, sort.as_ref(), skip, limit))];
                let t = if rec.idx_even() { Some(s.db().start_transaction().unwrap()) } else { None };
                if let Some(t) = &t { got.push(("find in a transaction", Coll::txn(t, &name).find_opts(q, sort.as_ref(), skip, limit))); }
                let mut p = vec![doc! {"$match": q.clone()}];
                if let Some(x) = sort { p.push(doc! {"$sort": x.clone()}); }
                if let Some(x) = skip { p.push(doc! {"$skip": x.min(i64::MAX as u64) as i64}); }
                if let Some(x) = limit { p.push(doc! {"$limit": x.min(i64::MAX as u64) as i64}); }
                got.push(("aggregate", c.aggregate(&p)));
                for (what, g) in got {
                    let good = matches!(&g, Out::Ok(v) if v.iter().map(rdoc).eq(want.iter().map(rdoc)));
                    if !good { rec.viol(format!("{name} {what} {q} sort {sort:?} skip {skip:?} limit {limit:?}"), json!({"got": format!("{:?}", g.map(|v| v.iter().map(rdoc).collect::<Vec<_>>())), "expected": want.iter().map(rdoc).collect::<Vec<_>>()})); break; }
                }
            } } } }
        }
    }
    // counts of every magnitude
    let mut wide: Vec<u64> = wide_counts().iter().map(|b| match b { Bson::Int32(n) => *n as u64, Bson::Int64(n) => *n as u64, _ => 0 }).collect();
    wide.extend([u64::MAX - 1, (1 << 63) - 1, (1 << 63) + 1, (1 << 63) + 2]);
    wide.sort(); wide.dedup();
    for n in wide { for sort in [None, Some(doc! {"a": 1})] { for (skip, limit) in [(Some(n), None), (None, Some(n)), (Some(1), Some(n)), (Some(n), Some(1)), (Some(n), Some(n))] {
        if !rec.next() { continue; }
        let name = "cubefalse";
        rec.begin(|| format!("wide sort {sort:?} skip {skip:?} limit {limit:?}"));
        rec.eval(Some(h64(&format!("wide {sort:?} {skip:?} {limit:?}"))));
        let c = Coll::auto(s.db(), name);
        let base = c.all().ok().unwrap_or_default();
        let want = shape_model(&base, sort.as_ref(), skip, limit);
        let g = c.find_opts(&doc! {}, sort.as_ref(), skip, limit);
        if !matches!(&g, Out::Ok(v) if v.iter().map(rdoc).eq(want.iter().map(rdoc))) { rec.viol(format!("wide sort {sort:?} skip {skip:?} limit {limit:?}"), json!({"got": format!("{:?}", g.map(|v| v.len())), "expected": want.len()})); }
    } } }
    // malformed sorts
    for sort in [doc! {"a": 0}, doc! {"a": 2}, doc! {"a": "asc"}, doc! {"a": 1.5}, doc! {"a": 257}, doc! {"a": Bson::Null}] {
        if !rec.next() { continue; }
        rec.begin(|| format!("malformed sort {sort}"));
        rec.eval(Some(h64(&sort.to_string())));
        let r = Coll::auto(s.db(), "cubefalse").find_opts(&doc! {}, Some(&sort), None, None);
        if !r.is_err() { rec.viol(format!("malformed sort {sort}"), json!({"got": format!("{:?}", r.map(|v| v.len()))})); }
    }
}

// ---------------------------------------------------------------- P20

pub fn run_stage(docs: Vec<Document>, st: &Document, first: bool) -> R<Vec<Document>> {
    if st.len() != 1 { return rej("stage"); }
    let (k, v) = st.iter().next().unwrap();
    let int = |v: &Bson| match v { Bson::Int32(n) if *n >= 0 => Ok(*n as usize), Bson::Int64(n) if *n >= 0 => Ok(*n as usize), _ => rej("operand") };
    match k.as_str() {
        "$match" if first => { let q = v.as_document().ok_or(Reject("operand".into()))?; matches(&Document::new(), q)?; let mut o = vec![]; for d in docs { if id_match(&d, q)? { o.push(d); } } Ok(o) }
        "$skip" => { let n = int(v)?; Ok(docs.into_iter().skip(n).collect()) }
        "$limit" => { let n = int(v)?; Ok(docs.into_iter().take(n).collect()) }
        "$count" => { let n = v.as_str().ok_or(Reject("operand".into()))?; Ok(vec![doc! {n: docs.len() as i64}]) }
        "$sort" => {
            let s = v.as_document().ok_or(Reject("operand".into()))?;
            for x in s.values() { if !matches!(x, Bson::Int32(1) | Bson::Int32(-1) | Bson::Int64(1) | Bson::Int64(-1)) { return rej("order"); } }
            let mut d = docs; d.sort_by(|a, b| sort_cmp(a, b, s)); Ok(d)
        }
        "$unset" => {
            let f: Vec<String> = match v { Bson::String(s) => vec![s.clone()], Bson::Array(a) => { let mut o = vec![]; for x in a { o.push(x.as_str().ok_or(Reject("operand".into()))?.to_string()); } o } _ => return rej("operand") };
            Ok(docs.into_iter().map(|mut d| { for k in &f { d.remove(k); } d }).collect())
        }
        "$addFields" => {
            let f = v.as_document().ok_or(Reject("operand".into()))?;
            for x in f.values() { if let Bson::Document(o) = x { if o.len() != 1 || !o.contains_key("$abs") { return rej("expression"); } } }
            let mut out = vec![];
            for d in docs {
                let mut e = d.clone();
                for (k, x) in f { e.insert(k.clone(), expr(&d, x)?); }
                out.push(e);
            }
            Ok(out)
        }
        "$group" => {
            let f = v.as_document().ok_or(Reject("operand".into()))?;
            if f.get("_id") != Some(&Bson::Null) { return rej("only the group of everything"); }
            let mut d = doc! {};
            for (k, x) in f { if k == "_id" { d.insert("_id", Bson::Null); } else if x == &Bson::Document(doc! {"$sum": 1}) { d.insert(k.clone(), docs.len() as i64); } else { return rej("accumulator"); } }
            Ok(vec![d])
        }
        _ => rej("unknown stage"),
    }
}
fn expr(d: &Document, x: &Bson) -> R<Bson> {
    Ok(match x {
        Bson::String(s) if s.starts_with('$') => d.get(&s[1..]).cloned().unwrap_or(Bson::Null),
        Bson::Document(o) => { let v = expr(d, o.get("$abs").unwrap())?; match v { Bson::Int32(n) => n.checked_abs().map(Bson::Int32).unwrap_or(Bson::Int64((n as i64).abs())), Bson::Int64(n) => n.checked_abs().map(Bson::Int64).unwrap_or(Bson::Double((n as f64).abs())), Bson::Double(n) => Bson::Double(n.abs()), x => x } }
        x => x.clone(),
    })
}

fn pipelines(rec: &mut Rec) {
    quiet_panics();
    let docs: Vec<Document> = vec![doc! {"_id": 1, "a": 2, "b": "x"}, doc! {"_id": 2, "a": -1}, doc! {"_id": 3, "b": "y", "n": {"x": 1}}, doc! {"_id": 4, "a": 2.5, "b": "x"}, doc! {"_id": 5, "a": 2, "b": "w"}];
    let stages: Vec<Document> = vec![
        doc! {"$match": {"a": {"$gt": 0}}}, doc! {"$match": {"b": "x"}}, doc! {"$match": {}},
        doc! {"$skip": 0}, doc! {"$skip": 1}, doc! {"$skip": 3i64}, doc! {"$limit": 0}, doc! {"$limit": 1}, doc! {"$limit": 2}, doc! {"$limit": 100i64},
        doc! {"$sort": {"a": 1}}, doc! {"$sort": {"b": -1, "a": 1}}, doc! {"$sort": {"a": -1, "_id": -1}},
        doc! {"$count": "a"}, doc! {"$count": "n"},
        doc! {"$unset": "a"}, doc! {"$unset": ["b", "zz"]},
        doc! {"$addFields": {"c": 1, "d": "$a"}}, doc! {"$addFields": {"a": {"$abs": "$a"}, "b": "$a"}},
        doc! {"$group": {"_id": Bson::Null, "a": {"$sum": 1}}},
    ];
    let bad: Vec<Document> = vec![doc! {}, doc! {"$foo": 1}, doc! {"$limit": 1, "$skip": 1}, doc! {"$limit": -1}, doc! {"$limit": "1"}, doc! {"$limit": 1.5}, doc! {"$skip": -1}, doc! {"$skip": Bson::Null}, doc! {"$sort": 1}, doc! {"$sort": {"a": 0}}, doc! {"$sort": {"a": "x"}}, doc! {"$count": 1}, doc! {"$unset": 1}, doc! {"$unset": [1]}, doc! {"$addFields": 1}, doc! {"$addFields": {"a": {"$foo": 1}}}, doc! {"$addFields": {"a": {}}}, doc! {"$group": {"a": {"$sum": 1}}}, doc! {"$group": 1}, doc! {"$group": {"_id": Bson::Null, "a": 1}}, doc! {"$match": 1}, doc! {"$match": {"a": {"$foo": 1}}}, doc! {"match": {}}];
    let s = Scratch::new(&rec.scratch);
    let names = ["plain", "indexed", "empty", "absent"];
    must(Coll::auto(s.db(), "indexed").create_index("b", None, false));
    for d in &docs { must(Coll::auto(s.db(), "plain").insert(d)); must(Coll::auto(s.db(), "indexed").insert(d)); }
    call(|| s.db().create_collection("empty"));
    let depth = if rec.thorough() { 5 } else { 4 };
    let run = |rec: &mut Rec, p: &[Document], which: &[&str]| {
        for name in which {
            let c = Coll::auto(s.db(), name);
            let base = c.all().ok().unwrap_or_default();
            // with an index the order of the input is the index order
            let base = match p.first().and_then(|d| d.get_document("$match").ok()) { Some(q) => match c.find(q) { Out::Ok(v) => v, _ => base }, None => base };
            let mut want: R<Vec<Document>> = Ok(base);
            for (i, st) in p.iter().enumerate() { want = match want { Ok(v) => run_stage(v, st, i == 0), Err(e) => Err(e) }; }
            rec.eval(Some(h64(&(name, p.iter().map(|d| d.to_string()).collect::<Vec<_>>()))));
            let got = c.aggregate(p);
            let good = match (&want, &got) { (Err(_), Out::Err(_)) => true, (Ok(w), Out::Ok(g)) => w.len() == g.len() && w.iter().map(rdoc).eq(g.iter().map(rdoc)), _ => false };
            if !good { rec.viol(format!("{name} {}", p.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" ")), json!({"got": format!("{:?}", got.map(|v| v.iter().map(rdoc).collect::<Vec<_>>())), "expected": format!("{:?}", want.map(|v| v.iter().map(rdoc).collect::<Vec<_>>()))})); return; }
        }
    };
    for len in 0..=depth {
        sequences(stages.len(), len, |q| {
            if q.iter().skip(1).any(|i| *i < 3) { return; } // $match is documented as the first stage
            if !rec.next() { return; }
            let p: Vec<Document> = q.iter().map(|i| stages[*i].clone()).collect();
            rec.begin(|| format!("{}", p.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" ")));
            run(rec, &p, if len <= 3 { &names } else { &names[..1] });
        });
    }
    // every value through every stage
    let mut wide = wide_docs();
    for (i, x) in uncommon().into_iter().chain(numbers()).enumerate() { wide.push(doc! {"_id": 500 + i as i32, "a": x, "b": "k"}); }
    for (i, x) in exotics().into_iter().chain(numbers()).enumerate() { wide.push(doc! {"_id": 1000 + i as i32, "b": x, "n": {"x": i as i32, "a": "in"}}); }
    // sorting is decided by P19
    let ws: Vec<Document> = vec![doc! {"$addFields": {"a": {"$abs": "$a"}, "z": {"$abs": "$b"}}}, doc! {"$addFields": {"c": "$a", "a": "$b", "b": "$_id"}}, doc! {"$unset": "a"}, doc! {"$unset": ["b", "z"]}, doc! {"$unset": ["n"]}, doc! {"$skip": 20}, doc! {"$limit": 60}, doc! {"$sort": {"_id": -1}}, doc! {"$count": "a"}, doc! {"$group": {"_id": Bson::Null, "a": {"$sum": 1}}}];
    for d in &wide { must(Coll::auto(s.db(), "wide").insert(d)); }
    for len in 0..=3 { sequences(ws.len(), len, |q| {
        if !rec.next() { return; }
        let p: Vec<Document> = q.iter().map(|i| ws[*i].clone()).collect();
        rec.begin(|| format!("wide {}", p.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" ")));
        run(rec, &p, &["wide"]);
    }); }
    // constants of every type added to a document
    for x in scalars().into_iter().chain(exotics()).chain(uncommon()).chain(numbers()) {
        if matches!(x, Bson::Document(_)) { continue; }
        for p in [vec![doc! {"$addFields": {"c": x.clone(), "a": x.clone()}}], vec![doc! {"$addFields": {"c": x.clone()}}, doc! {"$addFields": {"d": "$c", "e": {"$abs": "$c"}}}]] {
            if !rec.next() { continue; }
            rec.begin(|| format!("constant {}", p.iter().map(|d| rdoc(d)).collect::<Vec<_>>().join(" ")));
            run(rec, &p, &names);
        }
    }
    // counts of every magnitude
    for n in wide_counts() {
        let one = [doc! {"$limit": n.clone()}, doc! {"$skip": n.clone()}];
        let mut ps: Vec<Vec<Document>> = vec![];
        for x in &one { ps.push(vec![x.clone()]); for y in [doc! {"$sort": {"a": 1}}, doc! {"$limit": 2}, doc! {"$skip": 1}, doc! {"$count": "n"}] { ps.push(vec![x.clone(), y.clone()]); ps.push(vec![y, x.clone()]); } for y in &one { ps.push(vec![x.clone(), y.clone()]); } }
        for p in ps {
            if !rec.next() { continue; }
            rec.begin(|| format!("wide {}", p.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" ")));
            run(rec, &p, &names);
        }
    }
    // a malformed stage at every position
    for b in &bad { for len in 1..=3usize { for pos in 0..len { sequences(stages.len(), len - 1, |q| {
        if q.iter().enumerate().any(|(i, x)| *x < 3 && (i > 0 || pos == 0)) { return; }
        if len == 3 && !rec.tier_thorough() && q.iter().any(|x| x % 3 != 0) { return; }
        if !rec.next() { return; }
        let mut p: Vec<Document> = q.iter().map(|i| stages[*i].clone()).collect();
        p.insert(pos, b.clone());
        rec.begin(|| format!("malformed {}", p.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" ")));
        run(rec, &p, &names);
    }); } } }
    // groups and sums which the engine does not implement must be refused or computed
    for (key, g, want) in [
        ("group by a field", doc! {"_id": "$b", "n": {"$sum": 1}}, vec![doc! {"_id": "x", "n": 2}, doc! {"_id": Bson::Null, "n": 1}, doc! {"_id": "y", "n": 1}, doc! {"_id": "w", "n": 1}]),
        ("sum of a field", doc! {"_id": Bson::Null, "n": {"$sum": "$a"}}, vec![doc! {"_id": Bson::Null, "n": 5.5}]),
        ("sum of a constant", doc! {"_id": Bson::Null, "n": {"$sum": 2}}, vec![doc! {"_id": Bson::Null, "n": 10}]),
    ] {
        if !rec.next() { continue; }
        rec.begin(|| key.to_string());
        rec.eval(Some(h64(key)));
        let norm = |v: &[Document]| { let mut o: Vec<String> = v.iter().map(|d| format!("{} {:?}", d.get("_id").map(rval).unwrap_or_default(), d.get("n").map(|x| x.as_f64().or(x.as_i64().map(|i| i as f64)).or(x.as_i32().map(|i| i as f64))))).collect(); o.sort(); o };
        match Coll::auto(s.db(), "plain").aggregate(&[doc! {"$group": g.clone()}]) {
            Out::Err(_) => {}
            Out::Ok(v) if norm(&v) == norm(&want) => {}
            x => rec.viol(format!("$group {key}"), json!({"group": g.to_string(), "got": format!("{x:?}")})),
        }
    }
}
/// an absent or null identifier is replaced by a fresh one
fn no_id(d: &Document) -> bool { matches!(d.get("_id"), None | Some(Bson::Null)) }
