//! Query semantics, access paths.
use crate::gen::*;
use crate::model::*;
use crate::rec::*;
use crate::util::*;
use bson::{doc, Bson, Document};
use serde_json::json;
use std::collections::BTreeSet;

pub fn register(v: &mut Vec<CheckDef>) {
    v.push(CheckDef { id: "P12", level: "exploration", rule: "a query is non-trivial when it selects at least one document or is rejected; distinct = distinct (query, selected set)",
        assumptions: &[], run: |r| { query_semantics(r); crate::c_scale::filters(r, false); }, preload: None, workers: 8, hang_s: 60 });
}

const CMP: [&str; 6] = ["$eq", "$ne", "$gt", "$gte", "$lt", "$lte"];

/// literal and single-operator filters on one field
pub fn atoms(field: &str, full: bool) -> Vec<Document> {
    let mut v = vec![];
    let mut operands = scalars();
    operands.extend(exotics());
    if !full { operands = operands.into_iter().step_by(3).collect(); }
    for x in &operands {
        if !matches!(x, Bson::Document(_)) { v.push(doc! {field: x.clone()}); }
        for op in CMP { v.push(doc! {field: {op: x.clone()}}); v.push(doc! {field: {"$not": {op: x.clone()}}}); v.push(doc! {field: {"$not": {"$not": {op: x.clone()}}}}); }
    }
    let mut lists: Vec<Vec<Bson>> = vec![vec![]];
    for x in &operands { lists.push(vec![x.clone()]); }
    lists.push(vec![Bson::Int32(1), Bson::String("a".into())]);
    lists.push(vec![Bson::Int32(1), Bson::Int32(2)]);
    lists.push(vec![Bson::Null, Bson::Double(1.5)]);
    for r in regexes() { lists.push(vec![r]); }
    lists.push(vec![re("a", ""), Bson::Int32(2)]);
    for l in &lists {
        for op in ["$in", "$nin", "$all"] { v.push(doc! {field: {op: l.clone()}}); v.push(doc! {field: {"$not": {op: l.clone()}}}); }
    }
    for n in [Bson::Int64(0), Bson::Int64(1), Bson::Int64(2), Bson::Int32(1), Bson::Int64(-1), Bson::Int32(0), Bson::Int64((1 << 32) + 1), Bson::Int64(257), Bson::Int64(1 << 63)] {
        v.push(doc! {field: {"$size": n.clone()}}); v.push(doc! {field: {"$not": {"$size": n}}});
    }
    for r in regexes() { v.push(doc! {field: {"$regex": r.clone()}}); v.push(doc! {field: {"$not": {"$regex": r.clone()}}}); }
    // malformed filters: must be rejected
    for q in [doc! {field: {"$in": 1}}, doc! {field: {"$all": 1}}, doc! {field: {"$nin": doc!{}}}, doc! {field: {"$size": "1"}}, doc! {field: {"$size": 1.5}}, doc! {field: {"$regex": "a"}}, doc! {field: {"$foo": 1}},
        doc! {field: {"x": 1}}, doc! {field: {"$not": 1}}, doc! {field: {"$not": {"$foo": 1}}}, doc! {field: {}}, doc! {field: {"$not": {}}}, doc! {"$and": []}, doc! {"$or": []}, doc! {"$and": 1}, doc! {"$or": [1]}, doc! {"$foo": []}, doc! {"$not": {field: 1}},
        doc! {field: {"$in": [{"$gt": 1}]}}, doc! {field: {"$in": [re("(", "")]}}, doc! {field: {"$all": [re("a", "q")]}}, doc! {field: {"$gt": 1, "$foo": 1}}, doc! {"$and": [{field: {"$foo": 1}}]}, doc! {"$or": [{field: 1}, {"$foo": 1}]}] { v.push(q); }
    v
}

/// all compositions over a small set of atoms on fields a, b, c
pub fn compositions(thorough: bool) -> Vec<Document> {
    let lit: Vec<Document> = vec![doc! {"a": 1}, doc! {"b": {"$gt": 1}}, doc! {"a": {"$ne": 1}}, doc! {"b": {"$in": [1, 2]}}, doc! {"a": {"$not": {"$eq": 1}}}, doc! {"c": 2}];
    let small: Vec<Document> = lit.iter().take(if thorough { 6 } else { 3 }).cloned().collect();
    let mut v: Vec<Document> = vec![Document::new()];
    let multi: Vec<Document> = vec![doc! {"$gte": 1, "$lt": 2}, doc! {"$gt": 0, "$ne": 1}, doc! {"$ne": 1, "$gt": 0}, doc! {"$lt": 2, "$in": [1, 2]}, doc! {"$nin": [1], "$gt": 0, "$lt": 3}, doc! {"$not": {"$gt": 1}, "$gt": 0}, doc! {"$gt": 0, "$not": {"$gt": 1}}];
    for m in &multi {
        for f in ["a", "b"] {
            v.push(doc! {f: m.clone()});
            v.push(doc! {f: {"$not": m.clone()}});
            v.push(doc! {f: {"$not": {"$not": m.clone()}}});
            v.push(doc! {f: {"$not": m.clone()}, "c": 2});
            v.push(doc! {"c": 2, f: {"$not": m.clone()}});
            v.push(doc! {"$or": [{f: {"$not": m.clone()}}, {"c": 2}]});
        }
    }
    let merge = |x: &Document, y: &Document| { let mut d = x.clone(); for (k, v) in y { if d.contains_key(k) { return None; } d.insert(k, v.clone()); } Some(d) };
    // implicit and of two / three
    for x in &lit { for y in &lit { if let Some(d) = merge(x, y) { v.push(d.clone()); for z in &small { if let Some(e) = merge(&d, z) { v.push(e); } } } } }
    let mut l1: Vec<Document> = vec![];
    for op in ["$and", "$or"] {
        for x in &lit { l1.push(doc! {op: [x.clone()]}); }
        for x in &lit { for y in &lit { l1.push(doc! {op: [x.clone(), y.clone()]}); } }
        for x in &small { for y in &small { for z in &small { l1.push(doc! {op: [x.clone(), y.clone(), z.clone()]}); } } }
        l1.push(doc! {op: [{}]});
        l1.push(doc! {op: [{}, {"a": 1}]});
    }
    v.extend(l1.iter().cloned());
    // one nested level, every position of the nested connective relative to its siblings
    let nest: Vec<Document> = l1.iter().filter(|d| { let a = d.values().next().unwrap().as_array().unwrap(); a.len() == 2 && a.iter().all(|x| small.contains(x.as_document().unwrap())) }).cloned().collect();
    for n in &nest {
        for x in &small {
            if let Some(d) = merge(n, x) { v.push(d); }
            if let Some(d) = merge(x, n) { v.push(d); }
            for op in ["$and", "$or"] {
                v.push(doc! {op: [n.clone(), x.clone()]});
                v.push(doc! {op: [x.clone(), n.clone()]});
                v.push(doc! {op: [{"c": {"$lt": 2}}, n.clone(), x.clone()]});
            }
            let k = n.keys().next().unwrap();
            let other = if k == "$and" { "$or" } else { "$and" };
            for y in &small { v.push(doc! {k: n.get(k).unwrap().clone(), other: [x.clone(), y.clone()]}); v.push(doc! {"b": {"$gte": 1}, k: n.get(k).unwrap().clone(), other: [x.clone(), y.clone()], "c": {"$lte": 2}}); }
        }
        for m in &nest { for op in ["$and", "$or"] { v.push(doc! {op: [n.clone(), m.clone()]}); if thorough { v.push(doc! {op: [{"$or": [n.clone(), {"c": 1}]}, {"$and": [m.clone()]}]}); v.push(doc! {op: [n.clone(), m.clone()], "b": 1}); v.push(doc! {"b": 1, op: [n.clone(), m.clone()]}); } } }
    }
    let mut seen = BTreeSet::new();
    v.retain(|d| seen.insert(d.to_string()));
    v
}

/// every combination of three fields over {missing, 1, 2} plus a null
pub fn cube_docs() -> Vec<Document> {
    let mut v = vec![];
    let vals: [Option<Bson>; 4] = [None, Some(Bson::Int32(1)), Some(Bson::Int32(2)), Some(Bson::Null)];
    let mut n = 0;
    for a in &vals { for b in &vals[..3] { for c in &vals[..3] {
        let mut d = doc! {"_id": n};
        n += 1;
        for (k, x) in [("a", a), ("b", b), ("c", c)] { if let Some(x) = x { d.insert(k, x.clone()); } }
        v.push(d);
    } } }
    v
}

pub fn expect(coll: &MColl, q: &Document) -> Result<BTreeSet<String>, Reject> { coll.matching(q).map(|v| v.into_iter().collect()) }

pub fn load(docs: &[Document]) -> MColl {
    let mut m = MColl::default();
    for d in docs { m.insert(d).expect("model load"); }
    m
}

fn check_find(rec: &mut Rec, c: &Coll, m: &MColl, q: &Document, key: &str) {
    let want = expect(m, q);
    let got = c.find(q);
    let outcome = match (&want, &got) {
        (_, Out::Panic(p)) => Err(json!({"query": q.to_string(), "panic": p})),
        (Err(e), Out::Ok(v)) => Err(json!({"query": q.to_string(), "expected": format!("rejected: {}", e.0), "got_documents": v.len()})),
        (Err(_), Out::Err(_)) => Ok("rejected".to_string()),
        (Ok(_), Out::Err(e)) => Err(json!({"query": q.to_string(), "expected": "accepted", "got_error": e})),
        (Ok(w), Out::Ok(v)) => match set_key(v) {
            Err(e) => Err(json!({"query": q.to_string(), "problem": e})),
            Ok(g) if &g == w => {
                // the documents themselves must be the stored ones
                let bad = v.iter().find(|d| m.docs.get(&idkey(d.get("_id").unwrap())).map(rdoc) != Some(rdoc(d)));
                match bad { None => Ok(format!("{w:?}")), Some(d) => Err(json!({"query": q.to_string(), "altered": rdoc(d)})) }
            }
            Ok(g) => {
                let miss: Vec<_> = w.difference(&g).take(5).map(|k| rdoc(&m.docs[k])).collect();
                let extra: Vec<_> = g.difference(w).take(5).map(|k| m.docs.get(k).map(rdoc).unwrap_or(k.clone())).collect();
                Err(json!({"query": q.to_string(), "missing": miss, "unexpected": extra}))
            }
        },
    };
    match outcome {
        Ok(o) => rec.eval(if o == "{}" { None } else { Some(h64(&(q.to_string(), o))) }),
        Err(d) => { rec.eval(Some(h64(&q.to_string()))); rec.viol(format!("{key} {}", rdoc(q)), d) }
    }
}

fn query_semantics(rec: &mut Rec) {
    quiet_panics();
    let s = Scratch::new(&rec.scratch);
    let wide = wide_docs();
    let cube = cube_docs();
    let nested: Vec<Document> = {
        let mut v = vec![];
        let mut n = 0;
        for x in scalars().into_iter().chain(exotics()) { v.push(doc! {"_id": n, "a": {"b": x}}); n += 1; }
        for a in [doc! {}, doc! {"a": 1}, doc! {"a": {}}, doc! {"a": {"c": 1}}, doc! {"a": [{"b": 1}]}, doc! {"a.b": 1}, doc! {"a": Bson::Null}] { let mut d = doc! {"_id": n}; n += 1; d.extend(a); v.push(d); }
        v
    };
    let none: Vec<Document> = vec![];
    call(|| s.db().create_collection("empty"));
    let nothing: Vec<Document> = atoms("a", false).into_iter().chain(compositions(false)).collect();
    // every pattern of the alphabet up to a length, with every set of options, on every string up to a length
    let words = |alphabet: &[&str], max: usize| { let mut v = vec![String::new()]; let mut last = v.clone(); for _ in 0..max { last = last.iter().flat_map(|w| alphabet.iter().map(move |a| format!("{w}{a}"))).collect(); v.extend(last.iter().cloned()); } v };
    let mut texts: Vec<Document> = words(&["a", "b", "A", "\n", " "], 3).into_iter().map(|w| doc! {"a": w}).collect();
    texts.push(doc! {"a": Bson::Symbol("ab\n".into())});
    texts.push(doc! {"a": ["x", "b\na", 1]});
    texts.push(doc! {"a": [["ab"], {"a": "ab"}]});
    texts.push(doc! {"a": "\u{e4}a"});
    texts.push(doc! {"a": 1});
    texts.push(doc! {"b": "a"});
    let texts: Vec<Document> = texts.into_iter().enumerate().map(|(i, d)| { let mut e = doc! {"_id": i as i32}; e.extend(d); e }).collect();
    let mut options: Vec<String> = vec![];
    for m in 0..64u32 { if rec.thorough() || m.count_ones() < 2 || m == 5 || m == 6 || m == 63 { options.push("imsxuU".chars().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, c)| c).collect()); } }
    options.extend(["ii", "smi", "g", "I", "ix ", "l"].map(String::from));
    let mut patterns = vec![];
    for p in words(&["a", "b", ".", "^", "$", "*", "|", " "], if rec.thorough() { 4 } else { 3 }) {
        let short = p.chars().count() < 3;
        for (n, o) in options.iter().enumerate() { if short || n < 9 || p.chars().count() == 3 && rec.thorough() { let r = re(&p, o); patterns.push(doc! {"a": {"$regex": r.clone()}}); if short { patterns.push(doc! {"a": {"$not": {"$regex": r.clone()}}}); patterns.push(doc! {"a": {"$in": [r.clone(), 1]}}); patterns.push(doc! {"a": {"$nin": [r.clone()]}}); patterns.push(doc! {"a": {"$all": [r, re("a", "i")]}}); } } }
    }
    for p in ["(a|b)+$", "^(ab)*$", "a+?b", "a??b", "(^a|b$)", "(a", "a)", "()", "(a|)b", "a # b", "a#b\na", "a\nb", "ä", "Ä", "a.b", "(a.)+", "**", "?", "a|*", "^*a", "$*", "+a"] { for o in &options { patterns.push(doc! {"a": {"$regex": re(p, o)}}); } }
    for (name, docs, qs) in [
        ("texts", &texts, patterns),
        ("absent", &none, nothing.clone()),
        ("empty", &none, nothing),
        ("cube", &cube, compositions(rec.thorough())),
        ("wide", &wide, atoms("a", true)),
        ("nested", &nested, atoms("a.b", rec.thorough())),
    ] {
        let c = Coll::auto(s.db(), name);
        for d in docs { assert!(c.insert(d).is_ok()); }
        let m = load(docs);
        for q in &qs {
            if !rec.next() { continue; }
            rec.begin(|| format!("{name} {}", rdoc(q)));
            check_find(rec, &c, &m, q, name);
        }
    }
}
