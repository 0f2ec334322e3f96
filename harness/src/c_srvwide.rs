//! Part of P27: one command at a time, with arguments of every type, magnitude and number.
use crate::c_srv::{batch_of, fetch, Env};
use crate::gen::*;
use crate::model::{comparable, idkey, matches};
use crate::rec::*;
use crate::srv::*;
use crate::util::*;
use bson::{doc, Bson, Document};
use serde_json::{json, Value};
use std::collections::BTreeSet;

type E<T> = Result<T, String>;
fn good(k: &mut Conn, m: &Msg) -> E<Reply> { let r = k.ask(m)?; if r.ok() == Some(true) { Ok(r) } else { Err(format!("refused: {} {}", brief(&m.doc), r.doc)) } }
fn brief(d: &Document) -> String { rdoc(d).chars().take(300).collect() }
fn put(cmd: &str, coll: &str, key: &str, v: Vec<Document>, inline: bool) -> Msg {
    let mut d = doc! {cmd: coll, "$db": "d"};
    if inline { d.insert(key, v); Msg::of(d) } else { Msg { flags: 0, doc: d, seqs: vec![(key.into(), v)] } }
}
fn sorted(v: &[Document]) -> Vec<String> { let mut v: Vec<String> = v.iter().map(rdoc).collect(); v.sort(); v }
fn stored(k: &mut Conn, coll: &str, want: &[Document], what: &str) -> E<()> {
    let got = fetch(k, coll, doc! {})?;
    if sorted(&got) == sorted(want) { Ok(()) } else { Err(format!("{what}: stored {:?}, expected {:?}", short(&got), short(want))) }
}
fn short(v: &[Document]) -> String { if v.len() > 20 { format!("{} documents", v.len()) } else { sorted(v).join(" ").chars().take(600).collect() } }
fn n_is(r: &Reply, key: &str, n: i64) -> E<()> { if r.n(key) == Some(n) { Ok(()) } else { Err(format!("{key} should be {n} in {}", r.doc)) } }

/// a number the protocol allows in either integer type; as a double it may be refused
fn forms(n: i64) -> Vec<Bson> { let mut v = vec![Bson::Int64(n), Bson::Double(n as f64)]; if let Ok(m) = i32::try_from(n) { v.push(Bson::Int32(m)); } v }

pub fn wide(rec: &mut Rec, env: &mut Env) {
    let mut cases: Vec<(String, Box<dyn Fn(&mut Env, &str) -> E<()>>)> = vec![];
    // limits and skips of every magnitude and type
    let mut nums: BTreeSet<i64> = [1, 2, 3, 4, 5, 6, 7].into();
    for c in wide_counts() { if let Some(n) = num(&c) { nums.insert(n); } }
    for n in nums { for x in forms(n) {
        if n > 1 << 52 && matches!(x, Bson::Double(_)) { continue; }
        for how in ["limit", "skip", "both", "reverse"] {
            let (x, n) = (x.clone(), n as u64);
            cases.push((format!("find with {how} {}", rval(&x)), Box::new(move |env, coll| {
                let docs: Vec<Document> = (0..5).map(|i| doc! {"_id": i}).collect();
                good(&mut env.conns[0], &put("insert", coll, "documents", docs.clone(), false))?;
                let mut d = doc! {"find": coll, "filter": {}, "sort": {"_id": if how == "reverse" { -1 } else { 1 }}, "$db": "d"};
                if how != "skip" { d.insert("limit", x.clone()); }
                if how != "limit" && how != "reverse" { d.insert("skip", x.clone()); }
                let r = env.conns[1].command(d)?;
                if r.ok() != Some(true) { return if matches!(x, Bson::Double(_)) { Ok(()) } else { Err(format!("refused: {}", r.doc)) }; }
                let mut want = docs;
                if how == "reverse" { want.reverse(); }
                if how == "skip" || how == "both" { want = want.into_iter().skip(n.min(100) as usize).collect(); }
                if how != "skip" { want.truncate(n.min(100) as usize); }
                let got = batch_of(&r, "firstBatch")?.0;
                if got == want { Ok(()) } else { Err(format!("got {got:?}")) }
            })));
        }
    } }
    // one or all
    for l in [Bson::Int32(0), Bson::Int32(1), Bson::Int64(0), Bson::Int64(1), Bson::Double(0.0), Bson::Double(1.0)] { for hits in 0..4i32 { for inline in [false, true] { for filter in [doc! {"a": 1}, doc! {"_id": {"$lt": 9}, "a": 1}] {
        let (l, filter) = (l.clone(), filter.clone());
        cases.push((format!("delete with limit {} of {hits} by {filter} inline {inline}", rval(&l)), Box::new(move |env, coll| {
            let docs: Vec<Document> = (0..5).map(|i| doc! {"_id": i, "a": (i < hits) as i32}).collect();
            good(&mut env.conns[0], &put("insert", coll, "documents", docs.clone(), true))?;
            let r = env.conns[1].ask(&put("delete", coll, "deletes", vec![doc! {"q": filter.clone(), "limit": l.clone()}], inline))?;
            if r.ok() != Some(true) { return if matches!(l, Bson::Double(_)) { stored(&mut env.conns[0], coll, &docs, "refused") } else { Err(format!("refused: {}", r.doc)) }; }
            let one = num(&l) == Some(1);
            let n = if one { hits.min(1) } else { hits };
            n_is(&r, "n", n as i64)?;
            let left = fetch(&mut env.conns[0], coll, doc! {})?;
            let zeros = left.iter().filter(|d| d.get_i32("a") == Ok(0)).count() as i32;
            if left.len() as i32 == 5 - n && zeros == 5 - hits { Ok(()) } else { Err(format!("left {left:?}")) }
        })));
    } } } }
    for multi in [None, Some(false), Some(true)] { for upsert in [None, Some(false), Some(true)] { for hits in 0..4i32 { for inline in [false, true] {
        cases.push((format!("update multi {multi:?} upsert {upsert:?} of {hits} inline {inline}"), Box::new(move |env, coll| {
            let docs: Vec<Document> = (0..5).map(|i| doc! {"_id": i, "a": (i < hits) as i32}).collect();
            good(&mut env.conns[0], &put("insert", coll, "documents", docs, false))?;
            let mut st = doc! {"q": {"a": 1}, "u": {"$set": {"b": 7}}};
            if let Some(m) = multi { st.insert("multi", m); }
            if let Some(m) = upsert { st.insert("upsert", m); }
            let r = good(&mut env.conns[1], &put("update", coll, "updates", vec![st], inline))?;
            let all = fetch(&mut env.conns[0], coll, doc! {})?;
            let n = if multi == Some(true) { hits } else { hits.min(1) };
            let new = upsert == Some(true) && hits == 0;
            if !new { n_is(&r, "n", n as i64)?; n_is(&r, "nModified", n as i64)?; }
            let b = all.iter().filter(|d| d.get_i32("b") == Ok(7)).count() as i32;
            if all.len() == 5 + new as usize && b == n + new as i32 && all.iter().all(|d| d.get_i32("b").is_err() || d.get_i32("a") == Ok(1) || new) { Ok(()) } else { Err(format!("afterwards {all:?}")) }
        })));
    } } } }
    // values of every type, in every place
    for (i, x) in scalars().into_iter().chain(exotics()).chain(uncommon()).chain(numbers()).enumerate() { for inline in [false, true] {
        let x = x.clone();
        cases.push((format!("value {i} {} inline {inline}", rval(&x)), Box::new(move |env, coll| {
            let mut docs = vec![doc! {"_id": 1, "v": x.clone()}, doc! {"v": 1, "_id": 2}, doc! {"_id": 3, "n": {"v": [x.clone(), x.clone()]}}];
            let r = good(&mut env.conns[0], &put("insert", coll, "documents", docs.clone(), inline))?;
            n_is(&r, "n", 3)?;
            stored(&mut env.conns[1], coll, &docs, "inserted")?;
            let r = good(&mut env.conns[1], &put("update", coll, "updates", vec![doc! {"q": {"_id": 2}, "u": {"$set": {"v": x.clone()}}}], inline))?;
            n_is(&r, "n", 1)?;
            docs[1].insert("v", x.clone());
            stored(&mut env.conns[0], coll, &docs, "updated")?;
            if !comparable(&x, &x) { return Ok(()); }
            let q = doc! {"v": {"$eq": x.clone()}};
            let want: Vec<Document> = docs.iter().filter(|d| matches(d, &q).unwrap()).cloned().collect();
            let got = fetch(&mut env.conns[0], coll, doc! {"find": coll, "filter": q.clone(), "sort": {"_id": 1}})?;
            if sorted(&got) != sorted(&want) { return Err(format!("find {q}: {}", short(&got))); }
            let r = good(&mut env.conns[0], &Msg::of(doc! {"aggregate": coll, "pipeline": [{"$match": q.clone()}, {"$addFields": {"k": "$v"}}], "cursor": {}, "$db": "d"}))?;
            let got = batch_of(&r, "firstBatch")?.0;
            let added: Vec<Document> = want.iter().map(|d| { let mut d = d.clone(); let v = d.get("v").cloned().unwrap_or(Bson::Null); d.insert("k", v); d }).collect();
            if sorted(&got) != sorted(&added) { return Err(format!("aggregate {q}: {}", short(&got))); }
            let r = good(&mut env.conns[1], &put("delete", coll, "deletes", vec![doc! {"q": q.clone(), "limit": 0}], inline))?;
            n_is(&r, "n", want.len() as i64)?;
            docs.retain(|d| !matches(d, &q).unwrap());
            stored(&mut env.conns[0], coll, &docs, "deleted")
        })));
    } }
    let mut seen = BTreeSet::new();
    for x in crate::c_val::id_values() {
        if !seen.insert(idkey(&x)) { continue; }
        cases.push((format!("identifier {}", rval(&x)), Box::new(move |env, coll| {
            let mut d = doc! {"a": 1, "_id": x.clone()};
            let other = doc! {"_id": "another one", "a": 2};
            good(&mut env.conns[0], &put("insert", coll, "documents", vec![other.clone(), d.clone()], false))?;
            let got = fetch(&mut env.conns[1], coll, doc! {"find": coll, "filter": {"_id": x.clone()}})?;
            if sorted(&got) != sorted(&[d.clone()]) { return Err(format!("find: {}", short(&got))); }
            let r = env.conns[0].ask(&put("insert", coll, "documents", vec![doc! {"_id": x.clone()}], true))?;
            if r.ok() != Some(false) { return Err(format!("inserted twice: {}", r.doc)); }
            let r = good(&mut env.conns[1], &put("update", coll, "updates", vec![doc! {"q": {"_id": x.clone()}, "u": {"$inc": {"a": 1}}, "multi": false}], true))?;
            n_is(&r, "n", 1)?;
            d.insert("a", 2);
            stored(&mut env.conns[0], coll, &[other.clone(), d.clone()], "updated")?;
            let r = good(&mut env.conns[1], &put("delete", coll, "deletes", vec![doc! {"q": {"_id": x.clone()}, "limit": 1}], true))?;
            n_is(&r, "n", 1)?;
            stored(&mut env.conns[0], coll, &[other], "deleted")
        })));
    }
    // numbers of documents and of statements
    for n in [0usize, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537] { for inline in [false, true] {
        cases.push((format!("{n} documents in a command, inline {inline}"), Box::new(move |env, coll| {
            let docs: Vec<Document> = (0..n as i32).map(|i| doc! {"_id": i, "a": i % 2}).collect();
            let m = put("insert", coll, "documents", docs.clone(), inline);
            if n == 0 { let r = env.conns[0].ask(&m)?; if r.ok() == Some(true) { n_is(&r, "n", 0)?; } return stored(&mut env.conns[0], coll, &[], "nothing inserted"); }
            n_is(&good(&mut env.conns[0], &m)?, "n", n as i64)?;
            stored(&mut env.conns[1], coll, &docs, "inserted")?;
            let r = good(&mut env.conns[0], &Msg::of(doc! {"aggregate": coll, "pipeline": [{"$count": "n"}], "cursor": {}, "$db": "d"}))?;
            let c = batch_of(&r, "firstBatch")?.0;
            if c.first().and_then(|d| d.get("n").and_then(num)) != Some(n as i64) { return Err(format!("count {c:?}")); }
            let odd = n as i64 / 2;
            let r = good(&mut env.conns[1], &put("update", coll, "updates", vec![doc! {"q": {"a": 1}, "u": {"$set": {"a": 5}}, "multi": true}], inline))?;
            n_is(&r, "n", odd)?;
            n_is(&r, "nModified", odd)?;
            n_is(&good(&mut env.conns[1], &put("delete", coll, "deletes", vec![doc! {"q": {"a": 5}, "limit": 0}], inline))?, "n", odd)?;
            n_is(&good(&mut env.conns[1], &put("delete", coll, "deletes", vec![doc! {"q": {}, "limit": 0}], inline))?, "n", n as i64 - odd)
        })));
        if n > 4097 || n == 0 { continue; }
        cases.push((format!("{n} statements in a command, inline {inline}"), Box::new(move |env, coll| {
            let docs: Vec<Document> = (0..n as i32).map(|i| doc! {"_id": i, "a": 0}).collect();
            good(&mut env.conns[0], &put("insert", coll, "documents", docs, false))?;
            let st: Vec<Document> = (0..n as i32).map(|i| doc! {"q": {"_id": i}, "u": {"$set": {"a": i}}}).collect();
            let r = good(&mut env.conns[0], &put("update", coll, "updates", st, inline))?;
            n_is(&r, "n", n as i64)?;
            let want: Vec<Document> = (0..n as i32).map(|i| doc! {"_id": i, "a": i}).collect();
            stored(&mut env.conns[1], coll, &want, "updated")?;
            let st: Vec<Document> = (0..n as i32).map(|i| doc! {"q": {"_id": i}, "limit": (i % 2)}).collect();
            n_is(&good(&mut env.conns[0], &put("delete", coll, "deletes", st, inline))?, "n", n as i64)?;
            stored(&mut env.conns[1], coll, &[], "deleted")
        })));
    } }
    // the forms of a message: the order of its sections, one or several sequences, with a checksum
    for order in 0..3 { for sum in [false, true] { for split in [1usize, 2, 3] {
        cases.push((format!("message form {order} checksum {sum} sequences of {split}"), Box::new(move |env, coll| {
            let docs: Vec<Document> = (0..6).map(|i| doc! {"_id": i, "a": 1}).collect();
            let st: Vec<Document> = (0..6).map(|i| doc! {"q": {"_id": i}, "u": {"$inc": {"a": i}}}).collect();
            let de: Vec<Document> = (0..6).map(|i| doc! {"q": {"_id": i}, "limit": 1}).collect();
            for (cmd, key, list) in [("insert", "documents", docs), ("update", "updates", st), ("delete", "deletes", de)] {
                let mut body = vec![0u8];
                body.extend(bson::to_vec(&doc! {cmd: coll, "$db": "d"}).unwrap());
                let seqs: Vec<Vec<u8>> = list.chunks(6 / split).map(|c| { let mut s = key.as_bytes().to_vec(); s.push(0); for d in c { s.extend(bson::to_vec(d).unwrap()); } let mut b = vec![1u8]; b.extend((s.len() as i32 + 4).to_le_bytes()); b.extend(s); b }).collect();
                let mut parts = seqs;
                parts.insert([0, parts.len(), parts.len() / 2][order], body);
                let mut m = (sum as u32).to_le_bytes().to_vec();
                m.extend(parts.concat());
                let k = &mut env.conns[0];
                let id = k.id();
                let mut bytes = frame(id, 2013, &m);
                if sum { let n = bytes.len() as i32 + 4; bytes[..4].copy_from_slice(&n.to_le_bytes()); let c = crc32c(&bytes); bytes.extend(c.to_le_bytes()); }
                k.raw(&bytes)?;
                let r = k.recv()?;
                if r.response_to != id || r.ok() != Some(true) { return Err(format!("{cmd}: {}", r.doc)); }
                n_is(&r, "n", 6)?;
                let want: Vec<Document> = match cmd { "insert" => (0..6).map(|i| doc! {"_id": i, "a": 1}).collect(), "update" => (0..6).map(|i| doc! {"_id": i, "a": 1 + i}).collect(), _ => vec![] };
                stored(&mut env.conns[1], coll, &want, cmd)?;
            }
            Ok(())
        })));
    } } }
    // how a request is numbered, and what the collection is called
    for id in [0i32, 1, -1, 127, 128, 255, 256, 32768, 65535, 65536, i32::MAX, i32::MIN, i32::MIN + 1] {
        cases.push((format!("request number {id}"), Box::new(move |env, coll| {
            for d in [doc! {"ping": 1, "$db": "d"}, doc! {"find": coll, "filter": {}, "$db": "d"}, doc! {"nothing": 1, "$db": "d"}, doc! {"insert": coll, "documents": [{"a": 1}], "$db": "d"}, doc! {"aggregate": coll, "pipeline": [], "cursor": {}, "$db": "d"}] {
                env.conns[0].raw(&Msg::of(d.clone()).bytes(id))?;
                let r = env.conns[0].recv()?;
                if r.response_to != id { return Err(format!("the reply to {d} names {}", r.response_to)); }
            }
            Ok(())
        })));
    }
    let mut names: Vec<String> = ["a", "A", "é", "日本", " ", "with space", "dotted.name", "a.b.c", "system.x", "-", "0", "名.前", "quote\"s", "new\nline", "_id", "find", "e\u{301}"].iter().map(|s| s.to_string()).collect();
    for n in [63, 64, 120, 127, 128, 255, 256, 1000, 5000] { names.push("n".repeat(n)); }
    for name in names {
        cases.push((format!("collection {:?}", if name.len() > 60 { format!("{} x n", name.len()) } else { name.clone() }), Box::new(move |env, _| {
            let c = name.as_str();
            let docs = vec![doc! {"_id": 1, "v": 1}, doc! {"_id": 2, "v": 2}, doc! {"_id": 3, "v": 3}];
            let k = &mut env.conns[0];
            if c.contains(['.', '\n']) {
                // the library refuses these
                for m in [put("insert", c, "documents", docs.clone(), false), put("insert", c, "documents", docs.clone(), true)] { let r = k.ask(&m)?; if r.ok() != Some(false) { return Err(format!("accepted: {}", r.doc)); } }
                return Ok(());
            }
            good(k, &put("insert", c, "documents", docs.clone(), false))?;
            let ns = |r: &Reply| r.doc.get_document("cursor").ok().and_then(|x| x.get_str("ns").ok()).map_or(Err(format!("no ns in {}", r.doc)), |s| if s == format!("d.{c}") { Ok(()) } else { Err(format!("ns {s}")) });
            let r = good(k, &Msg::of(doc! {"find": c, "filter": {}, "batchSize": 1, "$db": "d"}))?;
            ns(&r)?;
            let id = batch_of(&r, "firstBatch")?.1;
            let r = good(k, &Msg::of(doc! {"getMore": id, "collection": c, "batchSize": 1, "$db": "d"}))?;
            ns(&r)?;
            good(k, &Msg::of(doc! {"killCursors": c, "cursors": [id], "$db": "d"}))?;
            ns(&good(k, &Msg::of(doc! {"find": c, "filter": {}, "singleBatch": true, "$db": "d"}))?)?;
            ns(&good(k, &Msg::of(doc! {"aggregate": c, "pipeline": [], "cursor": {}, "$db": "d"}))?)?;
            stored(&mut env.conns[1], c, &docs, "inserted")?;
            n_is(&good(&mut env.conns[0], &put("delete", c, "deletes", vec![doc! {"q": {}, "limit": 0}], false))?, "n", 3)
        })));
    }
    for (text, f) in cases {
        if !rec.next() { continue; }
        rec.begin(|| text.clone());
        rec.tick();
        rec.eval(Some(h64(&text)));
        let r = env.ready(rec).and_then(|_| f(env, &fresh_name("w")).map_err(|e| json!({"problem": e})));
        match r { Ok(()) => rec.count("traces_validated_against_impl", 1), Err(mut e) => { let e: &mut Value = &mut e; if env.died() { e["server"] = json!("the process has ended"); } env.reset(); rec.viol(text, e.clone()); } }
    }
}

fn crc32c(b: &[u8]) -> u32 { !b.iter().fold(!0u32, |c, x| (0..8).fold(c ^ *x as u32, |c, _| if c & 1 == 1 { c >> 1 ^ 0x82f63b78 } else { c >> 1 })) }
