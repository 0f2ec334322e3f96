//! The same properties at every size: the number of documents, indexes, clauses, stages, collections, the lengths of values and names.
use crate::c_ops::{must, run_stage};
use crate::c_query::load;
use crate::model::*;
use crate::rec::*;
use crate::seq::{rsorted, sequences};
use crate::util::*;
use bson::{doc, Bson, Document};
use polodb_core::{ClientCursor, CollectionT};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// the sizes up to a cap: all small ones, and the neighbours of round numbers
pub fn sizes(rec: &Rec, cap: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if rec.thorough() { 300 } else { 9 }).collect();
    if rec.quick() { for c in [32usize, 64, 100, 128, 256, 512, 1024, 2048, 4096] { v.extend([c - 1, c, c + 1]); } v.extend([201, 301, 1000]); }
    else { for c in [20usize, 32, 50, 64, 100, 128, 200, 250, 256, 300, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10_000, 16_384, 20_000, 32_768, 65_536, 100_000] { v.extend([c - 1, c, c + 1]); } }
    v.retain(|n| *n <= cap);
    v.sort();
    v.dedup();
    v
}
type Res = Result<(), Value>;
fn fail<T>(what: &str, got: impl std::fmt::Debug) -> Result<T, Value> { let s: String = format!("{got:?}").chars().take(600).collect(); Err(json!({"step": what, "got": s})) }
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res { if got == want { return Ok(()); } let s: String = format!("{want:?}").chars().take(400).collect(); let g: String = format!("{got:?}").chars().take(400).collect(); Err(json!({"step": what, "got": g, "expected": s})) }

/// one case for each size, combination of indexes, and place of the statements (0 outside a transaction, 1 inside one which is then committed)
fn each(rec: &mut Rec, what: &str, cap: usize, ixs: &[&[(&'static str, bool)]], txns: usize, f: &dyn Fn(&mut Rec, &mut Scratch, &Coll, usize, &[(&'static str, bool)]) -> Res) {
    quiet_panics();
    for n in sizes(rec, cap) { for (i, ix) in ixs.iter().enumerate() { for t in 0..txns {
        if !rec.next() { continue; }
        let key = format!("{what}: size {n}, indexes {ix:?}{}", if t == 1 { ", in a transaction" } else { "" });
        rec.begin(|| key.clone());
        rec.eval(Some(h64(&(what, n, i, t))));
        rec.count("cases_of_size", 1);
        rec.maxc("size", n as u64);
        let mut s = Scratch::new(&rec.scratch);
        let txn = if t == 1 { Some(s.db().start_transaction().unwrap()) } else { None };
        let c = match &txn { Some(x) => Coll::txn(x, "k"), None => Coll::auto(s.db(), "k") };
        let mut r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for (f, u) in *ix { let g = c.create_index(f, None, *u); if !g.is_ok() { return fail("create_index", g); } }
            f(rec, &mut s, &c, n, ix)
        })) { Ok(r) => r, Err(p) => fail("panic", p.downcast_ref::<String>()) };
        if let (Some(x), Ok(())) = (&txn, &r) {
            let before = c.all();
            let g = call(|| x.commit());
            if !g.is_ok() { r = fail("commit", g); }
            else { r = eq("after the commit", Coll::auto(s.db(), "k").all().map(|v| v.iter().map(rdoc).collect::<Vec<_>>()), before.map(|v| v.iter().map(rdoc).collect())); }
        }
        if let Err(e) = r { rec.viol(key, e); }
    } } }
}
const IXS: [&[(&str, bool)]; 4] = [&[], &[("a", false)], &[("u", true)], &[("a", false), ("u", true), ("m.x", false)]];
fn docs(n: usize) -> Vec<Document> { (0..n as i32).map(|i| doc! {"_id": i, "a": i % 3, "u": i, "m": {"x": i % 2}, "s": format!("s{i}")}).collect() }
fn map(v: &[Document]) -> BTreeMap<i32, Document> { v.iter().map(|d| (d.get_i32("_id").unwrap(), d.clone())).collect() }
fn fill(c: &Coll, d: &[Document]) -> Res { if d.is_empty() { return Ok(()); } let r = c.insert_many(d); if r.is_ok() { Ok(()) } else { fail("insert_many", r) } }
/// contents and lookups
fn contents(c: &Coll, want: &BTreeMap<i32, Document>, what: &str) -> Res {
    let v = match c.all() { Out::Ok(v) => v, g => return fail(what, g) };
    let g: BTreeMap<i32, String> = v.iter().map(|d| (d.get_i32("_id").unwrap_or(-1), rsorted(d))).collect();
    if v.len() != want.len() { return Err(json!({"step": what, "documents": v.len(), "expected": want.len()})); }
    for (k, d) in want { if g.get(k) != Some(&rsorted(d)) { return Err(json!({"step": what, "document": k, "got": g.get(k), "expected": rsorted(d)})); } }
    eq(what, c.count(), Out::Ok(want.len() as u64))?;
    // by the indexed fields
    let mut by: BTreeMap<i32, Vec<i32>> = BTreeMap::new();
    for (k, d) in want { by.entry(d.get_i32("a").unwrap_or(-99)).or_default().push(*k); }
    for (a, ks) in by { if a == -99 { continue; } let g = c.find(&doc! {"a": a}); match g { Out::Ok(v) => { let mut i: Vec<i32> = v.iter().map(|d| d.get_i32("_id").unwrap()).collect(); i.sort(); eq(&format!("{what}: find a = {a}"), i, ks)?; } g => return fail(what, g) } }
    for (k, d) in want.iter().step_by(1 + want.len() / 20).chain(want.iter().next_back()) { if let Ok(u) = d.get_i32("u") { if u == *k || u > 900_000 { let g = c.find(&doc! {"u": u}).map(|v| { let mut i: Vec<i32> = v.iter().map(|d| d.get_i32("_id").unwrap()).collect(); i.sort(); i }); let w: Vec<i32> = want.iter().filter(|(_, d)| d.get_i32("u") == Ok(u)).map(|(k, _)| *k).collect(); eq(&format!("{what}: find u = {u}"), g, Out::Ok(w))?; } } let g = c.find_one(&doc! {"_id": *k}).map(|v| v.map(|d| rsorted(&d))); eq(&format!("{what}: find_one {k}"), g, Out::Ok(Some(rsorted(d))))?; }
    Ok(())
}
fn upd(m: &mut BTreeMap<i32, Document>, sel: impl Fn(&Document) -> bool, u: &Document) -> u64 { let mut n = 0; for d in m.values_mut() { if sel(d) { apply_update(d, u).unwrap(); n += 1; } } n }

pub fn updates(rec: &mut Rec) {
    let cap = if rec.thorough() { 10_001 } else { 1025 };
    each(rec, "updates", cap, &IXS, 2, &|_, _, c, n, _| {
        fill(c, &docs(n))?;
        let mut m = map(&docs(n));
        let steps: Vec<(Document, Document, Box<dyn Fn(&Document) -> bool>)> = vec![
            (doc! {"a": 1}, doc! {"$inc": {"b": 1}}, Box::new(|d| d.get_i32("a") == Ok(1))),
            (doc! {}, doc! {"$set": {"c": 5}}, Box::new(|_| true)),
            (doc! {"a": 0}, doc! {"$inc": {"u": 1_000_000}}, Box::new(|d| d.get_i32("a") == Ok(0))),
            (doc! {"a": 1}, doc! {"$set": {"a": 2}}, Box::new(|d| d.get_i32("a") == Ok(1))),
            (doc! {"a": {"$gte": 0}}, doc! {"$inc": {"a": 1}}, Box::new(|_| true)),
            (doc! {"m.x": 1}, doc! {"$unset": {"m": ""}}, Box::new(|d| d.get_document("m").map_or(false, |m| m.get_i32("x") == Ok(1)))),
        ];
        for (q, u, sel) in &steps {
            let want = upd(&mut m, sel, u);
            let g = c.update(true, q, u, false);
            if !matches!(g, Out::Ok((x, y)) if x == want && y <= x) { return fail(&format!("update_many({q}, {u}), {want} documents"), g); }
            contents(c, &m, &format!("after update_many({q}, {u})"))?;
        }
        if n > 0 {
            let last = n as i32 - 1;
            for (q, k) in [(doc! {"_id": last}, last), (doc! {"s": format!("s{last}")}, last), (doc! {"s": "s0"}, 0)] {
                let u = doc! {"$set": {"z": q.to_string()}};
                apply_update(m.get_mut(&k).unwrap(), &u).unwrap();
                let g = c.update(false, &q, &u, false);
                if !matches!(g, Out::Ok((1, 1))) { return fail(&format!("update_one({q})"), g); }
                contents(c, &m, &format!("after update_one({q})"))?;
            }
        }
        Ok(())
    });
}

pub fn deletes(rec: &mut Rec) {
    let cap = if rec.thorough() { 10_001 } else { 1025 };
    each(rec, "deletes", cap, &IXS, 2, &|_, _, c, n, _| {
        fill(c, &docs(n))?;
        let mut m = map(&docs(n));
        let last = n as i32 - 1;
        for (many, q) in [(false, doc! {"s": format!("s{last}")}), (false, doc! {"u": last - 1}), (true, doc! {"a": 1}), (false, doc! {"a": 1}), (true, doc! {"m.x": 0}), (true, doc! {"_id": {"$gte": 0}})] {
            let mut ks = vec![];
            for (k, d) in &m { if matches(d, &q).unwrap() { ks.push(*k); } }
            if !many { ks.truncate(1); }
            let g = c.delete(many, &q);
            eq(&format!("delete ({q}, many={many})"), g, Out::Ok(ks.len() as u64))?;
            for k in ks { m.remove(&k); }
            contents(c, &m, &format!("after delete({q}, many={many})"))?;
        }
        fill(c, &docs(n))?;
        contents(c, &map(&docs(n)), "inserted again")?;
        eq("delete_many({})", c.delete(true, &doc! {}), Out::Ok(n as u64))?;
        contents(c, &BTreeMap::new(), "after delete_many({})")
    });
}

pub fn inserts(rec: &mut Rec) {
    let cap = if rec.thorough() { 20_001 } else { 2049 };
    each(rec, "insert_many", cap, &IXS, 2, &|_, _, c, n, _| {
        if n == 0 { return Ok(()); }
        let given: Vec<Document> = docs(n).into_iter().enumerate().map(|(i, mut d)| { if i % 2 == 1 { d.remove("_id"); } d }).collect();
        let ids = match c.insert_many(&given) { Out::Ok(v) => v, g => return fail("insert_many", g) };
        eq("positions reported", ids.iter().map(|x| x.0).collect::<Vec<_>>(), (0..n).collect())?;
        let mut seen = std::collections::HashSet::new();
        for (i, id) in &ids {
            if !seen.insert(rval(id)) { return fail("an identifier is reported twice", id); }
            if i % 2 == 0 { eq("identifier kept", id.clone(), Bson::Int32(*i as i32))?; }
            let mut want = given[*i].clone();
            want.insert("_id", id.clone());
            let g = c.find(&doc! {"_id": id.clone()}).map(|v| v.iter().map(rsorted).collect::<Vec<_>>());
            eq(&format!("find the document of position {i}"), g, Out::Ok(vec![rsorted(&want)]))?;
        }
        eq("count", c.count(), Out::Ok(n as u64))
    });
    // the identifier of the last document, or of the last but one, is taken
    each(rec, "insert_many with a taken identifier at the end", cap, &IXS, 2, &|_, _, c, n, _| {
        if n == 0 { return Ok(()); }
        for back in [1usize, 2] { if n >= back {
            let taken = doc! {"_id": (n - back) as i32, "t": 1};
            must(c.insert(&taken));
            let g = c.insert_many(&docs(n));
            if !g.is_err() { return fail("insert_many with a taken identifier", g); }
            contents(c, &map(&[taken.clone()]), "after the refusal")?;
            eq("delete", c.delete(false, &doc! {"_id": (n - back) as i32}), Out::Ok(1))?;
        } }
        fill(c, &docs(n))?;
        contents(c, &map(&docs(n)), "inserted after the refusals")
    });
}

/// a statement which fails at its last document
pub fn failures(rec: &mut Rec) {
    let cap = if rec.thorough() { 5001 } else { 513 };
    each(rec, "failing statements", cap, &IXS, 2, &|_, s, c, n, ix| {
        fill(c, &docs(n))?;
        let m = map(&docs(n));
        let bad = doc! {"_id": n as i32 + 5, "a": 1, "u": n as i32 + 5, "b": "no number", "m": {"x": 1}};
        must(c.insert(&bad));
        let mut full = m.clone();
        full.insert(n as i32 + 5, bad.clone());
        let mut refused: Vec<(&str, Document, Document)> = vec![("$inc of a string", doc! {}, doc! {"$inc": {"b": 1}}), ("$push to a string", doc! {"a": 1}, doc! {"$push": {"b": 1}}), ("unknown operator", doc! {}, doc! {"$set": {"c": 1}, "$foo": {"d": 1}})];
        if ix.iter().any(|x| x.0 == "u") && n > 0 { refused.push(("a duplicate", doc! {}, doc! {"$set": {"u": 7}})); refused.push(("a duplicate at the end", doc! {"a": 1}, doc! {"$max": {"u": n as i32 + 5}})); }
        for (what, q, u) in refused {
            let few = u.get_document("$max").is_ok() && full.values().filter(|d| d.get_i32("a") == Ok(1)).count() < 2;
            if few { continue; }
            let g = c.update(true, &q, &u, false);
            if !g.is_err() { return fail(what, g); }
            contents(c, &full, &format!("after {what}"))?;
        }
        let mut more: Vec<Document> = (0..n as i32).map(|i| doc! {"_id": 1_000_000 + i, "a": 1, "u": 1_000_000 + i}).collect();
        for end in [doc! {"_id": n as i32 + 5}, doc! {"_id": [1]}, doc! {"_id": 3_000_000, "a": 1, "u": n as i32 + 5}] {
            if end.contains_key("u") && !ix.iter().any(|x| x.0 == "u") { continue; }
            more.push(end.clone());
            let g = c.insert_many(&more);
            if !g.is_err() { return fail(&format!("insert_many ending in {end}"), g); }
            contents(c, &full, &format!("after insert_many ending in {end}"))?;
            more.pop();
        }
        let _ = s;
        fill(c, &more)?;
        for d in more { full.insert(d.get_i32("_id").unwrap(), d); }
        contents(c, &full, "after a statement which succeeds")
    });
}

pub fn indexes(rec: &mut Rec, build: bool) {
    let cap = if rec.thorough() { 5001 } else { 1025 };
    let name = if build { "index creation" } else { "index entries" };
    each(rec, name, cap, &[&[]], 2, &|_, _, c, n, _| {
        let mut m = map(&docs(n));
        if !build { for f in ["a", "u", "m.x"] { must(c.create_index(f, None, f == "u")); } }
        fill(c, &docs(n))?;
        if build {
            if n > 0 {
                // the last document breaks the rule
                let d = doc! {"_id": n as i32, "a": 0, "u": n as i32 - 1};
                must(c.insert(&d));
                m.insert(n as i32, d);
                let g = c.create_index("u", None, true);
                if !g.is_err() { return fail("a unique index over two equal values", g); }
                contents(c, &m, "after the refused index")?;
                let g = c.insert(&doc! {"_id": n as i32 + 1, "a": 0, "u": 0});
                if !g.is_ok() { return fail("the refused index has a rule", g); }
                must(c.delete(true, &doc! {"_id": {"$gte": n as i32}}));
                m.remove(&(n as i32));
            }
            for f in ["a", "u", "m.x"] { let g = c.create_index(f, None, f == "u"); if !g.is_ok() { return fail("create_index", g); } contents(c, &m, "after create_index")?; }
        }
        for v in 0..n as i32 {
            if n > 64 && v % (n as i32 / 32) != 0 && v != n as i32 - 1 { continue; }
            eq(&format!("find u = {v}"), c.find(&doc! {"u": v}).map(|x| x.iter().map(|d| d.get_i32("_id").unwrap()).collect::<Vec<_>>()), Out::Ok(vec![v]))?;
            let g = c.insert(&doc! {"_id": -1, "u": v});
            if !g.is_err() { return fail(&format!("a second {v} is admitted"), g); }
        }
        let x1: Vec<i32> = m.values().filter(|d| d.get_document("m").map_or(false, |m| m.get_i32("x") == Ok(1))).map(|d| d.get_i32("_id").unwrap()).collect();
        eq("find m.x = 1", c.find(&doc! {"m.x": 1}).map(|v| { let mut i: Vec<i32> = v.iter().map(|d| d.get_i32("_id").unwrap()).collect(); i.sort(); i }), Out::Ok(x1))?;
        // everything moves to other values, and back
        for u in [doc! {"$inc": {"a": 10, "u": 1_000_000}}, doc! {"$set": {"m": {"x": 1}}}, doc! {"$inc": {"a": -10, "u": -1_000_000}}] {
            let w = upd(&mut m, |_| true, &u);
            let g = c.update(true, &doc! {}, &u, false);
            if !matches!(g, Out::Ok((x, _)) if x == w) { return fail("update_many", g); }
            contents(c, &m, &format!("after {u}"))?;
            eq("find m.x = 0", c.find(&doc! {"m.x": 0}).map(|v| v.len()), Out::Ok(m.values().filter(|d| d.get_document("m").map_or(false, |m| m.get_i32("x") == Ok(0))).count()))?;
        }
        for f in ["a_1", "u_1", "m_x_1"] { let g = c.drop_index(f); if !g.is_ok() { return fail("drop_index", g); } contents(c, &m, "after drop_index")?; }
        if n > 0 { let g = c.insert(&doc! {"_id": -1, "a": 0, "u": 0}); if !g.is_ok() { return fail("the dropped index still has a rule", g); } must(c.delete(false, &doc! {"_id": -1})); }
        for f in ["u", "a"] { let g = c.create_index(f, None, f == "u"); if !g.is_ok() { return fail("create_index again", g); } contents(c, &m, "after creating it again")?; }
        Ok(())
    });
    // so many indexes on one collection
    let cap = if rec.thorough() { 300 } else { 65 };
    each(rec, if build { "number of indexes created late" } else { "number of indexes" }, cap, &[&[]], 2, &|_, _, c, n, _| {
        let mk = |i: i32| { let mut d = doc! {"_id": i}; for j in 0..n { d.insert(format!("f{j}"), i * 1000 + j as i32); } d };
        if build { must(c.insert_many(&[mk(0), mk(1), mk(2)])); }
        for j in 0..n { let g = c.create_index(&format!("f{j}"), None, j % 2 == 0); if !g.is_ok() { return fail("create_index", g); } }
        if !build { must(c.insert_many(&[mk(0), mk(1), mk(2)])); }
        for j in 0..n {
            let f = format!("f{j}");
            let ids = |v: i32| c.find(&doc! {&f: v}).map(|x| x.iter().map(|d| d.get_i32("_id").unwrap()).collect::<Vec<_>>());
            eq(&format!("find {f}"), ids(1000 + j as i32), Out::Ok(vec![1]))?;
            let g = c.insert(&doc! {"_id": 9, &f: 1000 + j as i32});
            if j % 2 == 0 { if !g.is_err() { return fail(&format!("a second value of {f}"), g); } } else { if !g.is_ok() { return fail(&format!("{f} is not unique"), g); } must(c.delete(false, &doc! {"_id": 9})); }
            eq("update", c.update(false, &doc! {"_id": 1}, &doc! {"$set": {&f: -5}}, false), Out::Ok((1, 1)))?;
            eq(&format!("find {f} by its old value"), ids(1000 + j as i32), Out::Ok(vec![]))?;
            eq(&format!("find {f} by its new value"), ids(-5), Out::Ok(vec![1]))?;
        }
        eq("delete", c.delete(true, &doc! {"_id": 1}), Out::Ok(1))?;
        for j in 0..n { let f = format!("f{j}"); eq(&format!("find {f} after the deletion"), c.find(&doc! {&f: -5}).map(|v| v.len()), Out::Ok(0))?; }
        if n > 0 { let g = c.insert(&mk(1)); if !g.is_ok() { return fail("insert again", g); } }
        for j in (0..n).rev() { let g = c.drop_index(&format!("f{j}_1")); if !g.is_ok() { return fail("drop_index", g); } let f = format!("f{j}"); eq(&format!("find {f} without its index"), c.find(&doc! {&f: 1000 + j as i32}).map(|v| v.len()), Out::Ok(1))?; }
        Ok(())
    });
}

pub fn shaping(rec: &mut Rec) {
    let cap = if rec.thorough() { 10_001 } else { 1025 };
    each(rec, "sort, skip and limit", cap, &[&[], &[("a", false)]], 2, &|rec, _, c, n, _| {
        let d: Vec<Document> = (0..n as i64).map(|i| doc! {"_id": i as i32, "a": ((i * 7919) % (n as i64 / 2 + 1)) as i32, "b": (i % 3) as i32, "u": ((i * 104_729) % 1_000_003) as i32}).collect();
        fill(c, &d)?;
        for q in [doc! {}, doc! {"b": {"$lt": 2}}, doc! {"a": 1}] {
            let base = match c.find(&q) { Out::Ok(v) => v, g => return fail("find", g) };
            for sort in [None, Some(doc! {"u": 1}), Some(doc! {"a": -1}), Some(doc! {"b": 1, "u": -1})] {
                rec.tick();
                for (skip, limit) in [(None, None), (Some(n as u64), None), (Some((n as u64).saturating_sub(1)), None), (None, Some(n as u64)), (None, Some((n as u64).saturating_sub(1))), (Some(n as u64 / 2), Some(n as u64 / 3)), (Some(1), Some(n as u64 + 1))] {
                    let mut w = base.clone();
                    if let Some(s) = &sort { w.sort_by(|x, y| sort_cmp(x, y, s)); }
                    let w: Vec<String> = w.iter().skip(skip.unwrap_or(0) as usize).take(limit.unwrap_or(u64::MAX) as usize).map(rdoc).collect();
                    let g = c.find_opts(&q, sort.as_ref(), skip, limit).map(|v| v.iter().map(rdoc).collect::<Vec<_>>());
                    eq(&format!("find({q}) sort {sort:?} skip {skip:?} limit {limit:?}"), g, Out::Ok(w))?;
                }
            }
        }
        Ok(())
    });
}

pub fn pipelines(rec: &mut Rec) {
    let cap = if rec.thorough() { 10_001 } else { 1025 };
    let run = |c: &Coll, p: &[Document], base: &[Document]| -> Res {
        let mut w = base.to_vec();
        for st in p.iter() { w = run_stage(w, st, true).map_err(|e| json!({"harness": e.0}))?; }
        let g = c.aggregate(p).map(|v| v.iter().map(rdoc).collect::<Vec<_>>());
        let t: String = p.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(", ").chars().take(200).collect();
        eq(&format!("aggregate([{t}])"), g, Out::Ok(w.iter().map(rdoc).collect()))
    };
    each(rec, "documents in a pipeline", cap, &[&[], &[("a", false)]], 2, &|rec, _, c, n, _| {
        // what a collection is which does not exist
        fill(c, &docs(n))?;
        let all = must(c.all());
        let m = n as i32;
        for p in [vec![doc! {"$count": "n"}], vec![doc! {"$match": {"a": 1}}, doc! {"$count": "n"}], vec![doc! {"$group": {"_id": Bson::Null, "n": {"$sum": 1}}}], vec![doc! {"$sort": {"s": 1}}, doc! {"$skip": m / 2}, doc! {"$limit": m / 3 + 1}],
            vec![doc! {"$skip": m}], vec![doc! {"$skip": m - 1}], vec![doc! {"$limit": m}], vec![doc! {"$limit": m + 1}, doc! {"$count": "n"}], vec![doc! {"$addFields": {"z": "$u", "a": {"$abs": "$a"}}}, doc! {"$unset": ["u", "s"]}], vec![doc! {"$sort": {"a": -1, "u": 1}}, doc! {"$limit": m}, doc! {"$sort": {"u": -1}}]] {
            rec.tick();
            if n == 0 && p.iter().any(|s| s.get("$skip") == Some(&Bson::Int32(-1))) { continue; }
            let base = match p[0].get_document("$match") { Ok(q) => must(c.find(q)), _ => all.clone() };
            if n == 0 && p[0].contains_key("$group") { continue; }
            run(c, &p, &base)?;
        }
        Ok(())
    });
    let cap = if rec.thorough() { 1001 } else { 129 };
    each(rec, "stages of a pipeline", cap, &[&[]], 1, &|rec, _, c, n, _| {
        fill(c, &docs(n + 2))?;
        let all = must(c.all());
        let kinds: Vec<Box<dyn Fn(usize) -> Document>> = vec![
            Box::new(|i| doc! {"$addFields": {format!("f{i}"): i as i32}}), Box::new(|i| doc! {"$unset": format!("f{i}")}), Box::new(|_| doc! {"$skip": 1}), Box::new(move |i| doc! {"$limit": (n + 2 - i) as i32}), Box::new(|i| doc! {"$sort": {"u": if i % 2 == 0 { 1 } else { -1 }}}), Box::new(|_| doc! {"$addFields": {"a": "$u", "u": "$a"}}), Box::new(|i| doc! {"$count": format!("n{i}")}),
        ];
        for (x, f) in kinds.iter().enumerate() { for (y, g) in kinds.iter().enumerate() {
            rec.tick();
            if x > y && n > 20 { continue; }
            let p: Vec<Document> = (0..n).map(|i| if i % 2 == 0 { f(i) } else { g(i) }).collect();
            run(c, &p, &all)?;
        } }
        // one stage with so many fields
        let mut add = Document::new();
        for i in 0..n { add.insert(format!("f{i}"), if i % 2 == 0 { Bson::Int32(i as i32) } else { Bson::String("$u".into()) }); }
        let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
        run(c, &[doc! {"$addFields": add.clone()}], &all)?;
        run(c, &[doc! {"$addFields": add.clone()}, doc! {"$unset": names.clone()}], &all)?;
        run(c, &[doc! {"$addFields": add}, doc! {"$unset": names[n / 2..].to_vec()}, doc! {"$sort": {"u": -1}}, doc! {"$limit": 2}], &all)
    });
}

pub fn cursors(rec: &mut Rec) {
    let cap = if rec.thorough() { 20_001 } else { 2049 };
    each(rec, "documents of a cursor", cap, &[&[], &[("a", false)], &[("k", false)]], 2, &|rec, _, c, n, _| {
        let d: Vec<Document> = docs(n).into_iter().map(|mut d| { d.insert("k", 1); d }).collect();
        fill(c, &d)?;
        let open = |kind: usize| -> Out<ClientCursor<Document>> {
            macro_rules! go { ($c:expr) => { call(|| match kind {
                0 => $c.find(doc! {}).run(), 1 => $c.find(doc! {"k": 1}).run(), 2 => $c.find(doc! {"a": {"$gte": 0}}).run(), 3 => $c.find(doc! {}).sort(doc! {"s": 1}).run(),
                4 => $c.aggregate(vec![doc! {"$match": {"k": 1}}, doc! {"$addFields": {"z": 1}}]).run(), 5 => $c.find(doc! {"$or": [{"a": 1}, {"k": 1}]}).run(), _ => $c.find(doc! {}).limit(n as u64 + 1).skip(0).run(),
            }) } }
            match c { Coll::Auto(c) => go!(c), Coll::Txn(c, _) => go!(c) }
        };
        for kind in 0..7 {
            rec.tick();
            let mut cur = match open(kind) { Out::Ok(c) => c, g => return fail("open", g.map(|_| ())) };
            let mut other = match open(kind) { Out::Ok(c) => c, g => return fail("open", g.map(|_| ())) };
            let mut seen = vec![false; n];
            let mut k = 0;
            loop {
                if k % 3 == 0 { let _ = other.next(); }
                match cur.next() {
                    None => break,
                    Some(Err(e)) => return fail("the cursor fails", e.to_string()),
                    Some(Ok(x)) => { let i = x.get_i32("_id").unwrap() as usize; if i >= n || seen[i] { return fail(&format!("kind {kind}: a document which was not stored or comes twice"), x); } seen[i] = true; }
                }
                k += 1;
            }
            eq(&format!("kind {kind}: documents"), k, n)?;
            for _ in 0..3 { if cur.next().is_some() { return fail(&format!("kind {kind}: a document after the end"), ()); } }
            drop(cur);
            drop(other);
            eq("count afterwards", c.count(), Out::Ok(n as u64))?;
        }
        Ok(())
    });
}

/// filters with so many clauses, operands, levels, elements
pub fn filters(rec: &mut Rec, by_index: bool) {
    let cap = if rec.thorough() { 1025 } else { 300 };
    let ixs: &[&[(&'static str, bool)]] = if by_index { &[&[("a", false)], &[("f0", false), ("a", false)], &[("x.x", false)]] } else { &[&[]] };
    each(rec, if by_index { "size of a filter, with an index" } else { "size of a filter" }, cap, ixs, if by_index { 2 } else { 1 }, &|rec, _, c, n, _| {
        let m = n as i32;
        let mut deep = Bson::Int32(1);
        let depth = n.min(60);
        for _ in 0..depth { deep = Bson::Document(doc! {"x": deep}); }
        let deep_path = vec!["x"; depth + 1].join(".");
        let mut wide = doc! {"_id": 5, "a": 3};
        for i in 0..n { wide.insert(format!("f{i}"), i as i32); }
        let mut almost = wide.clone();
        almost.insert("_id", 6);
        if n > 0 { almost.insert(format!("f{}", n - 1), -1); }
        let arr: Vec<i32> = (0..m).collect();
        let mut ds = vec![doc! {"_id": 0, "a": 0}, doc! {"_id": 1, "a": 1}, doc! {"_id": 2, "a": m}, doc! {"_id": 3, "a": m - 1}, doc! {"_id": 4}, wide, almost, doc! {"_id": 7, "x": deep.clone(), "a": 7}, doc! {"_id": 8, "l": arr.clone()}, doc! {"_id": 9, "l": (0..m + 1).collect::<Vec<_>>()}, doc! {"_id": 10, "a": "x".repeat(n)}, doc! {"_id": 11, "a": "x".repeat(n + 1)}];
        ds.dedup();
        for d in &ds { let r = c.insert(d); if !r.is_ok() { return fail("insert", r); } }
        let model = load(&ds);
        let nots = |k: usize, q: Document| { let mut q = q; for _ in 0..k { q = doc! {"$not": q}; } q };
        let nest = |op: &str, k: usize, q: Document| { let mut q = q; for i in 0..k { q = if i % 2 == 0 { doc! {op: [q]} } else { doc! {op: [q, {"a": {"$gte": 0}}]} }; } q };
        let clauses = |op: &str, i: usize, x: Document, y: Document| doc! {op: (0..n.max(1)).map(|j| Bson::Document(if j == i { y.clone() } else { x.clone() })).collect::<Vec<_>>()};
        let mut qs = vec![];
        for pos in [0, n / 2, n.saturating_sub(1)] {
            qs.push(clauses("$or", pos, doc! {"a": -1}, doc! {"a": 1}));
            qs.push(clauses("$and", pos, doc! {"a": {"$gte": 0}}, doc! {"a": 1}));
            qs.push(doc! {"a": {"$in": (0..m.max(1)).map(|j| if j == pos as i32 { 1 } else { -j - 5 }).collect::<Vec<_>>()}});
            qs.push(doc! {"a": {"$nin": (0..m.max(1)).map(|j| if j == pos as i32 { 1 } else { -j - 5 }).collect::<Vec<_>>()}});
            qs.push((0..n).map(|j| (format!("f{j}"), if j == pos { Bson::Document(doc! {"$gte": j as i32}) } else { Bson::Int32(j as i32) })).collect());
            qs.push((0..n).map(|j| (format!("f{j}"), if j == pos { Bson::Int32(-1) } else { Bson::Int32(j as i32) })).collect());
        }
        qs.push(doc! {"l": {"$size": n as i64}});
        qs.push(doc! {"l": {"$all": arr.clone()}});
        qs.push(doc! {"l": {"$all": (0..m + 1).collect::<Vec<_>>()}});
        qs.push(doc! {"l": arr});
        qs.push(doc! {"a": "x".repeat(n)});
        qs.push(doc! {"a": {"$gt": "x".repeat(n)}});
        qs.push(doc! {"a": {"$regex": crate::gen::re(&format!("^{}$", "x".repeat(n)), "")}});
        qs.push(doc! {"a": {"$lt": m, "$gte": 0}});
        qs.push(doc! {&deep_path: 1});
        qs.push(doc! {&deep_path[..deep_path.len().saturating_sub(2).max(1)]: {"$eq": {"x": 1}}});
        qs.push(doc! {format!("{deep_path}.x"): 1});
        let k = n.min(60);
        qs.push(nest("$and", k, doc! {"a": 1}));
        qs.push(nest("$or", k, doc! {"a": 1}));
        qs.push(doc! {"a": nots(k + 1, doc! {"$eq": 1})});
        qs.push(doc! {"a": nots(k + 1, doc! {"$gt": 0, "$lt": 2})});
        for q in qs {
            rec.tick();
            let want = model.matching(&q).map(|v| v.into_iter().collect::<std::collections::BTreeSet<_>>());
            let t: String = q.to_string().chars().take(200).collect();
            let g = c.find(&q);
            match (&want, &g) {
                (Err(_), Out::Err(_)) => continue,
                (Ok(w), Out::Ok(v)) => { let k = set_key(v).map_err(|e| json!({"filter": t, "problem": e}))?; if &k != w { return Err(json!({"filter": t, "got": format!("{k:?}"), "expected": format!("{w:?}")})); } }
                _ => return Err(json!({"filter": t, "got": format!("{:?}", g.map(|v| v.len())), "expected": format!("{want:?}")})),
            }
            let w = want.as_ref().unwrap().len() as u64;
            if by_index {
                eq(&format!("aggregate {t}"), c.aggregate(&[doc! {"$match": q.clone()}]).map(|v| v.len() as u64), Out::Ok(w))?;
                eq(&format!("find_one {t}"), c.find_one(&q).map(|v| v.is_some()), Out::Ok(w > 0))?;
                eq(&format!("update_many {t}"), c.update(true, &q, &doc! {"$set": {"seen": 1}}, false).map(|x| x.0), Out::Ok(w))?;
                eq(&format!("documents updated {t}"), c.update(true, &doc! {"seen": 1}, &doc! {"$unset": {"seen": 1}}, false).map(|x| x.0), Out::Ok(w))?;
            }
        }
        Ok(())
    });
}

/// updates of so many fields, arrays of so many elements
pub fn operators(rec: &mut Rec) {
    let cap = if rec.thorough() { 2049 } else { 513 };
    each(rec, "size of an update", cap, &[&[]], 1, &|rec, _, c, n, _| {
        let mut d = doc! {"_id": 1};
        for i in 0..n { d.insert(format!("f{i}"), i as i32); }
        d.insert("l", (0..n as i32).collect::<Vec<_>>());
        d.insert("s", "x".repeat(n));
        let all = |op: &str, f: &dyn Fn(usize) -> Bson| { let mut u = Document::new(); for i in 0..n { u.insert(format!("f{i}"), f(i)); } doc! {op: u} };
        let us = vec![
            all("$set", &|i| Bson::Int32(-(i as i32))), all("$inc", &|i| Bson::Int32(i as i32)), all("$mul", &|_| Bson::Int32(3)), all("$unset", &|_| Bson::Int32(1)), all("$max", &|i| Bson::Int32(if i % 2 == 0 { 1_000_000 } else { -1 })), all("$min", &|i| Bson::Int32(if i % 2 == 1 { 1_000_000 } else { -1 })),
            all("$rename", &|i| Bson::String(format!("g{i}"))), doc! {"$push": {"l": 7}}, doc! {"$pop": {"l": 1}}, doc! {"$pop": {"l": -1}}, doc! {"$set": {"s": "y".repeat(n + 1)}}, doc! {"$set": {"l": (0..n as i32 + 1).collect::<Vec<_>>()}}, doc! {"$unset": {format!("f{}", n / 2): 1}}, doc! {"$rename": {format!("f{}", n / 2): "new"}}, doc! {"$set": {format!("f{n}"): 1}},
        ];
        for u in us {
            rec.tick();
            must(c.delete(true, &doc! {}));
            must(c.insert(&d));
            let mut w = d.clone();
            let t: String = u.to_string().chars().take(100).collect();
            apply_update(&mut w, &u).map_err(|e| json!({"harness": e.0}))?;
            let g = c.update(false, &doc! {"_id": 1}, &u, false);
            if !matches!(g, Out::Ok((1, _))) { return fail(&t, g); }
            let g = c.find_one(&doc! {"_id": 1});
            match g { Out::Ok(Some(x)) if rsorted(&x) == rsorted(&w) && !(u.contains_key("$set") || u.contains_key("$inc")) => {}, Out::Ok(Some(x)) if rdoc(&x) == rdoc(&w) => {}, g => return fail(&t, g.map(|x| x.map(|d| rdoc(&d)))) }
        }
        Ok(())
    });
}

pub fn upserts(rec: &mut Rec) {
    let cap = if rec.thorough() { 1025 } else { 257 };
    each(rec, "size of an upsert", cap, &[&[], &[("f0", true)]], 2, &|_, _, c, n, _| {
        let q: Document = std::iter::once(("_id".to_string(), Bson::Int32(1))).chain((0..n).map(|i| (format!("f{i}"), Bson::Int32(i as i32)))).collect();
        let u: Document = (0..n).map(|i| (format!("g{i}"), Bson::Int32(i as i32))).collect();
        let mut w = q.clone();
        w.extend(u.clone());
        let u = doc! {"$set": if u.is_empty() { doc! {"z": 1} } else { u }};
        if n == 0 { w.insert("z", 1); }
        for round in 0..2 {
            let g = c.update(true, &q, &u, true);
            if !g.is_ok() { return fail("upsert", g); }
            if round == 1 && !matches!(g, Out::Ok((1, _))) { return fail("a second upsert", g); }
            let g = c.all().map(|v| v.iter().map(rsorted).collect::<Vec<_>>());
            eq("after the upsert", g, Out::Ok(vec![rsorted(&w)]))?;
        }
        // an upsert of one among many documents
        must(c.delete(true, &doc! {}));
        let ds: Vec<Document> = (0..n as i32).map(|i| doc! {"_id": i, "f0": i, "v": 0}).collect();
        fill(c, &ds)?;
        let mut m = map(&ds);
        for k in [0, n as i32 / 2, n as i32 - 1, n as i32, n as i32 + 1] {
            if k < 0 { continue; }
            let e = m.entry(k).or_insert(doc! {"_id": k, "f0": k});
            e.insert("v", k);
            let g = c.update(false, &doc! {"_id": k, "f0": k}, &doc! {"$set": {"v": k}}, true);
            if !g.is_ok() { return fail("upsert", g); }
            contents(c, &m, &format!("after the upsert of {k}"))?;
        }
        Ok(())
    });
}

/// a transaction of so many statements
pub fn transactions(rec: &mut Rec) {
    let cap = if rec.thorough() { 2049 } else { 301 };
    each(rec, "size of a transaction", cap, &IXS, 1, &|rec, s, c, n, _| {
        let base: Vec<Document> = docs(n + 4).into_iter().take(4).collect();
        fill(c, &base)?;
        let before = map(&base);
        for end in 0..3 {
            let t = s.db().start_transaction().unwrap();
            let k = Coll::txn(&t, "k");
            let mut m = before.clone();
            for i in 0..n as i32 {
                rec.tick();
                let id = i + 10;
                let d = doc! {"_id": id, "a": id % 3, "u": id, "m": {"x": id % 2}};
                let g = match i % 4 {
                    0 | 1 => { m.insert(id, d.clone()); k.insert(&d).map(|_| 1) }
                    2 => { let (x, u) = (id - 1, doc! {"$inc": {"a": 1}}); apply_update(m.get_mut(&x).unwrap(), &u).unwrap(); k.update(false, &doc! {"_id": x}, &u, false).map(|x| x.0) }
                    _ => { m.remove(&(id - 3)); k.delete(false, &doc! {"u": id - 3}) }
                };
                eq(&format!("statement {i} of the transaction"), g, Out::Ok(1))?;
                if n <= 17 || i as usize % (n / 4) == 0 || i as usize == n - 1 { contents(&k, &m, &format!("inside, after statement {i}"))?; contents(c, &before, &format!("outside, after statement {i}"))?; }
            }
            let want = match end { 0 => { must(call(|| t.rollback())); &before } 1 => { drop(k); drop(t); &before } _ => { let g = call(|| t.commit()); if !g.is_ok() { return fail("commit", g); } &m } };
            contents(c, want, ["after the rollback", "after the transaction was dropped", "after the commit"][end])?;
        }
        Ok(())
    });
}

/// so many collections, names of such lengths
pub fn collections(rec: &mut Rec, reopening: bool) {
    let cap = if rec.thorough() { 513 } else { 101 };
    each(rec, if reopening { "number of collections, reopened" } else { "number of collections" }, cap, &[&[]], 1, &|rec, s, _, n, _| {
        let name = |i: usize| format!("c{}", "x".repeat(i));
        let fields: Vec<String> = (0..3).map(|j| format!("f{j}")).collect();
        for i in 0..n {
            rec.tick();
            let c = Coll::auto(s.db(), &name(i));
            if i % 3 == 0 { must(call(|| s.db().create_collection(&name(i)).map(|_| ()))); }
            for f in fields.iter().take(i % 4) { let g = c.create_index(f, None, true); if !g.is_ok() { return fail("create_index", g); } }
            if i % 3 != 0 { let g = c.insert_many(&[doc! {"_id": 1, "f0": i as i32}, doc! {"_id": 2, "f0": -1, "f1": i as i32}]); if !g.is_ok() { return fail("insert_many", g); } }
        }
        let check = |s: &Scratch, alive: &dyn Fn(usize) -> bool, what: &str| -> Res {
            let mut l = match call(|| s.db().list_collection_names()) { Out::Ok(l) => l, g => return fail("list", g) };
            l.retain(|x| x != "k");
            l.sort();
            let mut w: Vec<String> = (0..n).filter(|i| alive(*i)).map(name).collect();
            w.sort();
            eq(&format!("{what}: list_collection_names"), l, w)?;
            for i in 0..n {
                let c = Coll::auto(s.db(), &name(i));
                let want: Vec<Document> = if alive(i) && i % 3 != 0 { vec![doc! {"_id": 1, "f0": i as i32}, doc! {"_id": 2, "f0": -1, "f1": i as i32}] } else { vec![] };
                eq(&format!("{what}: contents of collection {i}"), c.all().map(|v| v.iter().map(rdoc).collect::<Vec<_>>()), Out::Ok(want.iter().map(rdoc).collect()))?;
                eq(&format!("{what}: lookup in collection {i}"), c.find(&doc! {"f0": i as i32}).map(|v| v.len()), Out::Ok(if want.is_empty() { 0 } else { 1 }))?;
                if i % 4 > 0 && alive(i) && !want.is_empty() { let g = c.insert(&doc! {"_id": 3, "f0": i as i32}); if !g.is_err() { return fail(&format!("{what}: the rule of collection {i}"), g); } }
            }
            Ok(())
        };
        check(s, &|_| true, "all")?;
        if reopening { s.reopen(); check(s, &|_| true, "reopened")?; }
        for i in 0..n { if i % 2 == 0 { let g = Coll::auto(s.db(), &name(i)).drop_coll(); if !g.is_ok() { return fail("drop", g); } } }
        check(s, &|i| i % 2 == 1, "half of them dropped")?;
        if reopening { s.reopen(); check(s, &|i| i % 2 == 1, "half of them dropped, reopened")?; }
        Ok(())
    });
    if reopening {
        let cap = if rec.thorough() { 20_001 } else { 2049 };
        each(rec, "number of documents, reopened", cap, &IXS, 1, &|_, s, c, n, ix| {
            fill(c, &docs(n))?;
            let mut m = map(&docs(n));
            let _ = c;
            for round in 0..3 {
                s.reopen();
                let c = Coll::auto(s.db(), "k");
                contents(&c, &m, &format!("reopening {round}"))?;
                if ix.iter().any(|x| x.1) && !m.is_empty() { let g = c.insert(&doc! {"_id": -1, "u": m.values().next().unwrap().get_i32("u").unwrap_or(0)}); if !m.is_empty() && !g.is_err() { return fail("the unique rule after reopening", g); } }
                match round { 0 => { let u = doc! {"$inc": {"a": 1}}; upd(&mut m, |_| true, &u); must(c.update(true, &doc! {}, &u, false)); } _ => { let ks: Vec<i32> = m.keys().copied().filter(|k| k % 2 == 0).collect(); for k in ks { m.remove(&k); must(c.delete(false, &doc! {"_id": k})); } } }
            }
            Ok(())
        });
    }
}

/// short histories repeated so many times, so that internal limits and leaks are met
pub fn repeated(rec: &mut Rec) {
    let reps = if rec.thorough() { 2000 } else { 300 };
    let depth = 2;
    let names = ["a find which is dropped unread", "a find read to its end", "a transaction rolled back", "a transaction committed", "a failing insert", "a failing update", "an index created and dropped", "a collection created and dropped", "a malformed query"];
    let mut todo = vec![];
    sequences(names.len(), depth, |q| todo.push(q.to_vec()));
    for q in todo {
        if !rec.next() { continue; }
        let what = format!("{reps} times: {}", q.iter().map(|i| names[*i]).collect::<Vec<_>>().join(", "));
        rec.begin(|| what.clone());
        rec.eval(Some(h64(&what)));
        let s = Scratch::new(&rec.scratch);
        let c = Coll::auto(s.db(), "k");
        must(c.create_index("u", None, true));
        must(c.insert_many(&docs(5)));
        let m = map(&docs(5));
        let r = (|| -> Res {
            for i in 0..reps {
                rec.tick();
                for x in &q {
                    let g = match x {
                        0 => match &c { Coll::Auto(c) => call(|| { let mut x = c.find(doc! {}).run()?; let _ = x.next(); Ok(()) }), _ => unreachable!() },
                        1 => c.all().map(|_| ()),
                        2 => call(|| { let t = s.db().start_transaction()?; t.collection::<Document>("k").insert_one(doc! {"_id": 100 + i, "u": 100})?; t.rollback() }),
                        3 => call(|| { let t = s.db().start_transaction()?; t.collection::<Document>("k").insert_one(doc! {"_id": 100 + i, "u": 100})?; t.collection::<Document>("k").delete_one(doc! {"_id": 100 + i})?; t.commit() }),
                        4 => { let g = c.insert(&doc! {"_id": 100, "u": 1}); if g.is_err() { Out::Ok(()) } else { Out::Err(format!("{g:?}")) } }
                        5 => { let g = c.update(true, &doc! {}, &doc! {"$set": {"u": 1}}, false); if g.is_err() { Out::Ok(()) } else { Out::Err(format!("{g:?}")) } }
                        6 => match c.create_index("a", None, false) { Out::Ok(()) => c.drop_index("a_1"), g => g },
                        7 => match Coll::auto(s.db(), "t").insert(&doc! {"_id": 1}) { Out::Ok(_) => Coll::auto(s.db(), "t").drop_coll(), g => g.map(|_| ()) },
                        _ => { let g = c.find(&doc! {"$foo": 1}); if g.is_err() { Out::Ok(()) } else { Out::Err(format!("{g:?}")) } }
                    };
                    if !g.is_ok() { return fail(&format!("round {i}: {}", names[*x]), g); }
                }
            }
            contents(&c, &m, "at the end")
        })();
        if let Err(e) = r { rec.viol(what, e); }
    }
}
