//! The server over its wire protocol: commands (P27), cursors (P28), transactions (P29), messages (P30).
use crate::model::{idkey, sort_cmp};
use crate::rec::*;
use crate::seq::*;
use crate::srv::*;
use crate::util::*;
use bson::{doc, Bson, Document};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn register(v: &mut Vec<CheckDef>) {
    let d = |id, rule, run: fn(&mut Rec)| CheckDef { id, level: "model_checking", rule, assumptions: &["one reply per message, in order, on a connection"], run, preload: Some("fast.so"), workers: 8, hang_s: 90 };
    v.push(d("P27", "distinct sequences of commands", commands));
    v.push(d("P28", "distinct sequences of cursor steps", cursors));
    v.push(d("P29", "distinct sequences of session steps", sessions));
    v.push(d("P30", "distinct byte streams", hostile));
}

/// one server for all histories of a worker, started again when it is gone
pub struct Env { srv: Option<Server>, pub conns: Vec<Conn>, served: u32 }
impl Env {
    fn new() -> Env { Env { srv: None, conns: vec![], served: 0 } }
    pub fn ready(&mut self, rec: &Rec) -> Result<(), Value> {
        // cursors which no client ends stay for good, and their transactions with them
        self.served += 1;
        if self.served % 4000 == 0 { self.drop_all(); }
        if self.srv.as_mut().map_or(true, |s| !s.alive()) { self.conns.clear(); self.srv = None; self.srv = Some(Server::start(&fresh_path(&rec.scratch), None, None).map_err(|e| json!({"problem": e}))?); }
        while self.conns.len() < 3 { let c = self.srv.as_ref().unwrap().connect().map_err(|e| json!({"connect": e}))?; self.conns.push(c); }
        Ok(())
    }
    pub fn reset(&mut self) { self.conns.clear(); }
    fn drop_all(&mut self) { self.conns.clear(); if let Some(mut s) = self.srv.take() { s.stop(); let _ = std::fs::remove_dir_all(&s.path); } }
    pub fn died(&mut self) -> bool { std::thread::sleep(std::time::Duration::from_millis(30)); self.srv.as_mut().map_or(false, |s| !s.alive()) }
}

/// all documents a find selects, over as many batches as it takes
pub fn fetch(c: &mut Conn, coll: &str, mut cmd: Document) -> Result<Vec<Document>, String> {
    if !cmd.contains_key("find") { let mut d = doc! {"find": coll, "filter": {}, "batchSize": 1000}; d.extend(cmd); cmd = d; }
    cmd.insert("$db", "d");
    let r = c.command(cmd)?;
    if r.ok() != Some(true) { return Err(format!("find failed: {}", r.doc)); }
    rest(c, coll, &r)
}
pub fn batch_of(r: &Reply, key: &str) -> Result<(Vec<Document>, i64), String> {
    let cur = r.doc.get_document("cursor").map_err(|_| format!("no cursor in {}", r.doc))?;
    let b = cur.get_array(key).map_err(|_| format!("no {key} in {}", r.doc))?;
    let docs = b.iter().map(|x| x.as_document().cloned().ok_or(format!("{key}: {x}"))).collect::<Result<Vec<_>, _>>()?;
    Ok((docs, cur.get("id").and_then(num).ok_or(format!("no cursor id in {}", r.doc))?))
}
fn rest(c: &mut Conn, coll: &str, r: &Reply) -> Result<Vec<Document>, String> {
    let (mut all, mut id) = batch_of(r, "firstBatch")?;
    for _ in 0..1000 {
        if id == 0 { return Ok(all); }
        let r = c.command(doc! {"getMore": id, "collection": coll, "batchSize": 1000, "$db": "d"})?;
        if r.ok() != Some(true) { return Err(format!("getMore failed: {}", r.doc)); }
        let (more, next) = batch_of(&r, "nextBatch")?;
        all.extend(more);
        id = next;
    }
    Err("a cursor without an end".into())
}
fn rendered(v: &[Document]) -> Vec<String> { v.iter().map(rsorted).collect() }

// ---------------------------------------------------------------- P27

#[derive(Clone, Debug)]
enum Cmd {
    Ins(Vec<Document>, bool), Upd(Vec<(Document, Document, Option<bool>, Option<bool>)>, bool), Del(Vec<(Document, i32)>, bool),
    /// the options of the command, and the documents as the library gives them
    Find { q: Document, sort: Option<Document>, skip: Option<i64>, limit: Option<i64>, batch: Option<i32>, single: bool },
    Agg(Vec<Document>), Plain(Document), /// refused, and nothing else happens
    Bad(Document), /// no reply is wanted
    Quiet(Document),
}
impl Cmd {
    fn msg(&self, coll: &str) -> Msg {
        let put = |d: Document, k: &str, v: Vec<Document>, inline: bool| if inline { let mut d = d; d.insert(k, v); Msg::of(d) } else { Msg { flags: 0, doc: d, seqs: vec![(k.to_string(), v)] } };
        match self {
            Cmd::Ins(v, inline) => put(doc! {"insert": coll, "ordered": true, "$db": "d"}, "documents", v.clone(), *inline),
            Cmd::Upd(v, inline) => put(doc! {"update": coll, "ordered": true, "$db": "d"}, "updates", v.iter().map(|(q, u, m, s)| { let mut d = doc! {"q": q.clone(), "u": u.clone()}; if let Some(m) = m { d.insert("multi", *m); } if let Some(s) = s { d.insert("upsert", *s); } d }).collect(), *inline),
            Cmd::Del(v, inline) => put(doc! {"delete": coll, "ordered": true, "$db": "d"}, "deletes", v.iter().map(|(q, l)| doc! {"q": q.clone(), "limit": *l}).collect(), *inline),
            Cmd::Find { q, sort, skip, limit, batch, single } => {
                let mut d = doc! {"find": coll, "filter": q.clone()};
                if let Some(s) = sort { d.insert("sort", s.clone()); }
                if let Some(s) = skip { d.insert("skip", *s); }
                if let Some(s) = limit { d.insert("limit", *s); }
                if let Some(s) = batch { d.insert("batchSize", *s); }
                if *single { d.insert("singleBatch", true); }
                d.insert("$db", "d");
                Msg::of(d)
            }
            Cmd::Agg(p) => Msg::of(doc! {"aggregate": coll, "pipeline": p.clone(), "cursor": {}, "$db": "d"}),
            Cmd::Plain(d) | Cmd::Bad(d) => { let mut d = d.clone(); if let Some((k, Bson::String(s))) = d.clone().iter().next() { if s == "k" { d.insert(k, coll); } } Msg::of(d) }
            Cmd::Quiet(d) => Msg { flags: 2, doc: doc! {"insert": coll, "$db": "d"}, seqs: vec![("documents".into(), vec![d.clone()])] },
        }
    }
    fn text(&self) -> String { let m = self.msg("k"); format!("{}{}{}", m.doc, m.seqs.iter().map(|(k, v)| format!(" + {k} {}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(", "))).collect::<String>(), if m.flags != 0 { " (no reply)" } else { "" }) }
}

fn sub_ops(cmd: &Cmd) -> Vec<Op> {
    match cmd {
        Cmd::Ins(v, _) => vec![Op::InsMany("k", v.clone())],
        Cmd::Quiet(d) => vec![Op::Ins("k", d.clone())],
        Cmd::Upd(v, _) => v.iter().map(|(q, u, m, s)| if *s == Some(true) { Op::Upsert { c: "k", id: q.get("_id").unwrap().clone(), u: u.clone() } } else { Op::Upd { c: "k", many: *m == Some(true), q: q.clone(), u: u.clone() } }).collect(),
        Cmd::Del(v, _) => v.iter().map(|(q, l)| Op::Del { c: "k", many: *l == 0, q: q.clone() }).collect(),
        _ => vec![],
    }
}

/// the states which the reply allows
fn judge(cmd: &Cmd, r: &Reply, cands: &[MDb], conn: &mut Conn, coll: &str, drain: bool) -> Result<Vec<MDb>, String> {
    let ok = r.ok().ok_or(format!("no ok in {}", r.doc))?;
    match cmd {
        Cmd::Ins(..) | Cmd::Upd(..) | Cmd::Del(..) | Cmd::Quiet(_) => {
            // (state, documents counted, documents changed at least; a failing statement ends the command)
            let mut run: Vec<(MDb, u64, u64, bool, bool)> = cands.iter().map(|m| (m.clone(), 0, 0, false, false)).collect();
            for op in sub_ops(cmd) {
                run = run.into_iter().flat_map(|(m, n, c, bad, any)| if bad { vec![(m, n, c, bad, any)] } else {
                    model_step(&m, &op).into_iter().map(|(x, e)| match e {
                        Expect::Rejected(_) => (x, n, c, true, any),
                        Expect::Insert(v) => (x, n + v.len() as u64, c, false, any),
                        Expect::Update { matched, changed } => (x, n + matched, c + changed, false, any),
                        Expect::Delete(k) => (x, n + k, c, false, any),
                        _ => (x, n, c, false, true),
                    }).collect()
                }).collect();
            }
            let out: Vec<MDb> = run.iter().filter(|(_, n, c, bad, any)| if *bad { !ok } else { ok && (*any || r.n("n") == Some(*n as i64)) && (*any || !matches!(cmd, Cmd::Upd(..)) || r.n("nModified").map_or(false, |x| x >= *c as i64 && x <= *n as i64)) }).map(|x| x.0.clone()).collect();
            if out.is_empty() { return Err(format!("reply {}, expected one of {:?}", r.doc, run.iter().map(|x| if x.3 { "an error".to_string() } else { format!("n {} nModified {}..", x.1, x.2) }).collect::<BTreeSet<_>>())); }
            Ok(out)
        }
        Cmd::Find { q, sort, skip, limit, batch, single } => {
            if !ok { return Err(format!("find failed: {}", r.doc)); }
            let (first, id) = batch_of(r, "firstBatch")?;
            if let (Some(b), false) = (batch, single) { if *b > 0 && first.len() > *b as usize { return Err(format!("{} documents in a batch of {b}", first.len())); } }
            if *single && id != 0 { return Err(format!("a cursor after a single batch: {}", r.doc)); }
            let got = if drain { rest(conn, coll, r)? } else { first };
            let fits = |m: &MDb| {
                let mut all: Vec<Document> = m.colls.get("k").map(|x| x.matching(q).unwrap().iter().map(|k| x.docs[k].clone()).collect()).unwrap_or_default();
                let cut = |n: usize| { let n = n.saturating_sub(skip.unwrap_or(0) as usize); limit.map_or(n, |l| n.min(l as usize)) };
                let want = cut(all.len());
                let g = rendered(&got);
                if let Some(s) = sort {
                    all.sort_by(|a, b| sort_cmp(a, b, s));
                    let w: Vec<String> = rendered(&all).into_iter().skip(skip.unwrap_or(0) as usize).take(want).collect();
                    return if drain { g == w } else { w.starts_with(&g) };
                }
                let set: BTreeSet<String> = rendered(&all).into_iter().collect();
                let gs: BTreeSet<String> = g.iter().cloned().collect();
                gs.len() == g.len() && gs.is_subset(&set) && if drain { g.len() == want } else { g.len() <= want }
            };
            let out: Vec<MDb> = cands.iter().filter(|m| fits(m)).cloned().collect();
            if out.is_empty() { return Err(format!("found {got:?}, documents {:?}", cands.iter().map(mstate).collect::<Vec<_>>())); }
            Ok(out)
        }
        Cmd::Agg(p) => {
            if !ok { return Err(format!("aggregate failed: {}", r.doc)); }
            let got = if drain { rest(conn, coll, r)? } else { batch_of(r, "firstBatch")?.0 };
            let count = p.last().map_or(false, |s| s.contains_key("$count") || s.contains_key("$group"));
            let fits = |m: &MDb| {
                let mut all: Vec<Document> = m.colls.get("k").map(|x| x.docs.values().cloned().collect()).unwrap_or_default();
                for s in p {
                    if let Ok(q) = s.get_document("$match") { all.retain(|d| crate::model::matches(d, q).unwrap()); }
                    if let Ok(q) = s.get_document("$sort") { all.sort_by(|a, b| sort_cmp(a, b, q)); }
                    if let Some(n) = s.get("$limit").and_then(num) { all.truncate(n as usize); }
                }
                if count { return got.len() <= 1 && got.first().map_or(all.is_empty(), |d| d.get("n").and_then(num) == Some(all.len() as i64)); }
                let (g, w) = (rendered(&got), rendered(&all));
                if drain { g == w } else { w.starts_with(&g) }
            };
            let out: Vec<MDb> = cands.iter().filter(|m| fits(m)).cloned().collect();
            if out.is_empty() { return Err(format!("aggregate gave {got:?}, documents {:?}", cands.iter().map(mstate).collect::<Vec<_>>())); }
            Ok(out)
        }
        Cmd::Plain(_) => if ok { Ok(cands.to_vec()) } else { Err(format!("refused: {}", r.doc)) },
        Cmd::Bad(_) => if ok { Err(format!("accepted: {}", r.doc)) } else { Ok(cands.to_vec()) },
    }
}

/// the commands, those which may succeed first, and how many those are
fn command_family() -> (Vec<Cmd>, usize) {
    let id = |i: i32| doc! {"_id": i};
    let f = |q: Document| Cmd::Find { q, sort: None, skip: None, limit: None, batch: None, single: false };
    let mut v = vec![
        Cmd::Ins(vec![doc! {"_id": 4, "a": 1}], false), Cmd::Ins(vec![doc! {"_id": 4, "a": 2}], true), Cmd::Ins(vec![doc! {"_id": 5, "a": 1}, doc! {"_id": 4, "a": 3}], false), Cmd::Ins(vec![doc! {"_id": 6}, doc! {"_id": 1}], false),
        Cmd::Upd(vec![(doc! {"a": 1}, doc! {"$set": {"a": 2}}, Some(true), None)], true), Cmd::Upd(vec![(doc! {"a": 1}, doc! {"$set": {"b": 7}}, Some(false), None)], true), Cmd::Upd(vec![(doc! {}, doc! {"$inc": {"b": 1}}, None, None)], false),
        Cmd::Upd(vec![(id(9), doc! {"$set": {"a": 9}}, None, Some(true))], true), Cmd::Upd(vec![(id(1), doc! {"$set": {"a": 3}}, None, None), (doc! {"a": 3}, doc! {"$set": {"c": 1}}, Some(true), None)], true),
        Cmd::Upd(vec![(id(1), doc! {"$set": {"b": 5}}, None, None), (id(2), doc! {"$nope": {"b": 5}}, None, None), (id(3), doc! {"$set": {"b": 5}}, None, None)], false),
        Cmd::Upd(vec![(id(77), doc! {"$set": {"a": 1}}, Some(true), Some(false))], true),
        Cmd::Del(vec![(doc! {"a": 1}, 0)], true), Cmd::Del(vec![(doc! {"a": 1}, 1)], true), Cmd::Del(vec![(id(1), 1), (id(2), 0)], false), Cmd::Del(vec![(doc! {}, 0)], true), Cmd::Del(vec![(doc! {"$nope": 1}, 0)], true),
        f(doc! {}), f(doc! {"a": 1}), f(doc! {"_id": {"$gte": 2}}),
        Cmd::Find { q: doc! {}, sort: Some(doc! {"_id": -1}), skip: None, limit: None, batch: None, single: false },
        Cmd::Find { q: doc! {}, sort: Some(doc! {"_id": 1}), skip: Some(1), limit: Some(2), batch: Some(1), single: false },
        Cmd::Find { q: doc! {}, sort: None, skip: Some(1), limit: None, batch: Some(2), single: false },
        Cmd::Find { q: doc! {"a": 1}, sort: None, skip: None, limit: Some(1), batch: None, single: true },
        Cmd::Find { q: doc! {}, sort: None, skip: None, limit: Some(2), batch: None, single: false },
        Cmd::Agg(vec![doc! {"$match": {"a": 1}}, doc! {"$sort": {"_id": -1}}]), Cmd::Agg(vec![doc! {"$sort": {"_id": 1}}, doc! {"$limit": 2}]), Cmd::Agg(vec![doc! {"$match": {"a": 1}}, doc! {"$count": "n"}]),
        Cmd::Plain(doc! {"ping": 1, "$db": "d"}), Cmd::Plain(doc! {"isMaster": 1, "helloOk": true, "$db": "d"}), Cmd::Plain(doc! {"killCursors": "k", "cursors": [987654i64], "$db": "d"}),
        Cmd::Quiet(doc! {"_id": 8, "a": 1}), Cmd::Quiet(doc! {"_id": 1, "a": 1}),
        Cmd::Bad(doc! {"nothing": 1, "$db": "d"}), Cmd::Bad(doc! {"delete": "k", "$db": "d"}), Cmd::Bad(doc! {"update": "k", "$db": "d"}), Cmd::Bad(doc! {"getMore": 987654i64, "collection": "k", "$db": "d"}),
        Cmd::Bad(doc! {"find": "k", "filter": {"$nope": 1}, "$db": "d"}),
    ];
    let bad = vec![
        doc! {"find": 5, "$db": "d"}, doc! {"find": "k"}, doc! {"find": "k", "filter": 5, "$db": "d"}, doc! {"insert": 5, "$db": "d"}, doc! {"update": 5, "$db": "d"}, doc! {"delete": 5, "$db": "d"}, doc! {"aggregate": 5, "pipeline": [], "$db": "d"}, doc! {"aggregate": "k", "$db": "d"}, doc! {"aggregate": "k", "pipeline": 5, "$db": "d"}, doc! {"aggregate": "k", "pipeline": [5], "$db": "d"}, doc! {"aggregate": "k", "pipeline": [{"$nope": 1}], "$db": "d"}, doc! {"aggregate": "k", "pipeline": []},
        doc! {"update": "k", "updates": 5, "$db": "d"}, doc! {"update": "k", "updates": [5], "$db": "d"}, doc! {"update": "k", "updates": [{"q": {}}], "$db": "d"}, doc! {"update": "k", "updates": [{"u": {"$set": {"a": 1}}}], "$db": "d"}, doc! {"update": "k", "updates": [{"q": 5, "u": {"$set": {"a": 1}}}], "$db": "d"},
        doc! {"delete": "k", "deletes": 5, "$db": "d"}, doc! {"delete": "k", "deletes": [5], "$db": "d"}, doc! {"delete": "k", "deletes": [{"limit": 0}], "$db": "d"}, doc! {"delete": "k", "deletes": [{"q": 5, "limit": 0}], "$db": "d"},
        doc! {"getMore": "x", "collection": "k", "$db": "d"}, doc! {"getMore": 987654i64, "$db": "d"}, doc! {"killCursors": "k", "$db": "d"}, doc! {"killCursors": "k", "cursors": 5, "$db": "d"}, doc! {"killCursors": 5, "cursors": [], "$db": "d"},
        doc! {"commitTransaction": 1, "$db": "admin"}, doc! {"abortTransaction": 1, "$db": "admin"}, doc! {"insert": "k", "documents": 5, "$db": "d"}, doc! {"insert": "k", "documents": [5], "$db": "d"},
        doc! {"find": "k", "startTransaction": true, "autocommit": false, "$db": "d"}, doc! {"find": "k", "lsid": {}, "startTransaction": true, "$db": "d"}, doc! {"find": "k", "lsid": {"id": 5}, "$db": "d"}, doc! {"find": "k", "lsid": 5, "startTransaction": true, "$db": "d"}, doc! {},
    ];
    let good = v.len();
    v.extend(bad.into_iter().map(Cmd::Bad));
    (v, good)
}

fn commands(rec: &mut Rec) {
    let quick = rec.quick();
    let (fam, good) = command_family();
    let mut env = Env::new();
    let mut todo: Vec<(u64, Vec<usize>, u8)> = vec![];
    for mode in 0..2u8 {
        for d in 1..=3 {
            if quick && d == 3 && mode == 1 { continue; }
            sequences(if d < 3 || !quick && mode == 0 { fam.len() } else { good }, d, |q| if rec.next() { todo.push((rec.position() - 1, q.to_vec(), mode)); });
        }
    }
    for (no, q, mode) in todo {
        let cmds: Vec<Cmd> = q.iter().map(|i| fam[*i].clone()).collect();
        let text = cmds.iter().map(|c| c.text()).collect::<Vec<_>>().join(" | ") + ["", " (sent at once)"][mode as usize];
        rec.begin_at(no, || text.clone());
        let r = command_case(rec, &mut env, &cmds, mode == 1);
        rec.eval(Some(h64(&text)));
        if let Err(mut e) = r { if env.died() { e["server"] = json!("the process has ended"); } env.reset(); rec.viol(text, e); }
    }
    crate::c_srvwide::wide(rec, &mut env);
    // as much at once as the server says it takes
    for (count, size) in [(1usize, 16_000_000usize), (3, 15_000_000), (47, 1_000_000), (40_000, 1000), (1000, 17_000)] {
        if !rec.next() { continue; }
        let text = format!("{count} documents of {size} bytes in a message");
        rec.begin(|| text.clone());
        let r = large_case(rec, &mut env, count, size);
        rec.eval(Some(h64(&text)));
        if let Err(mut e) = r { if env.died() { e["server"] = json!("the process has ended"); } env.reset(); rec.viol(text, e); }
    }
    // values within values
    for depth in [1usize, 2, 10, 50, 90, 95, 100, 101, 120, 150, 180] { for kind in 0..3 {
        if !rec.next() { continue; }
        let text = format!("{depth} nested {}", ["documents", "arrays", "documents and arrays"][kind]);
        rec.begin(|| text.clone());
        let r = deep_case(rec, &mut env, depth, kind);
        rec.eval(Some(h64(&text)));
        if let Err(mut e) = r { if env.died() { e["server"] = json!("the process has ended"); } env.reset(); rec.viol(text, e); }
    } }
    env.drop_all();
}
fn deep_case(rec: &mut Rec, env: &mut Env, depth: usize, kind: usize) -> Result<(), Value> {
    env.ready(rec)?;
    let coll = fresh_name("k");
    let mut v = Bson::Int32(1);
    for i in 0..depth { v = if kind == 0 || kind == 2 && i % 2 == 0 { Bson::Document(doc! {"a": v, "b": 1}) } else { Bson::Array(vec![v, Bson::Int32(2)]) }; }
    let docs = vec![doc! {"_id": 1, "v": v.clone()}, doc! {"_id": 2, "v": 1}];
    let k = &mut env.conns[0];
    let mut r = k.ask(&Cmd::Ins(docs.clone(), false).msg(&coll)).map_err(|e| json!({"insert": e}))?;
    if r.n("n") == Some(2) { r = k.ask(&Cmd::Upd(vec![(doc! {"_id": 2}, doc! {"$set": {"v": v.clone()}}, None, None)], false).msg(&coll)).map_err(|e| json!({"update": e}))?; }
    if r.ok() != Some(true) || r.n("n").map_or(true, |n| n < 1) { return Err(json!({"write": r.doc.to_string()})); }
    for q in [doc! {}, doc! {"v": {"$eq": v.clone()}}] {
        let got = fetch(k, &coll, doc! {"find": &coll, "filter": q, "sort": {"_id": 1}}).map_err(|e| json!({"find": e}))?;
        if got != vec![docs[0].clone(), doc! {"_id": 2, "v": v.clone()}] { return Err(json!({"found": format!("{got:?}").chars().take(500).collect::<String>()})); }
    }
    rec.count("traces_validated_against_impl", 1);
    Ok(())
}

fn large_case(rec: &mut Rec, env: &mut Env, count: usize, size: usize) -> Result<(), Value> {
    env.ready(rec)?;
    let coll = fresh_name("k");
    let fill = |i: usize| { let mut x = i.to_string(); let n = size - 40 - x.len(); x.extend(std::iter::repeat('v').take(n)); x };
    let k = &mut env.conns[0];
    let r = k.ask(&Cmd::Ins((0..count).map(|i| doc! {"_id": i as i32, "v": fill(i)}).collect(), false).msg(&coll)).map_err(|e| json!({"insert": e}))?;
    if r.ok() != Some(true) || r.n("n") != Some(count as i64) { return Err(json!({"insert": r.doc.to_string()})); }
    let mut seen = 0;
    let mut r = k.command(doc! {"find": &coll, "filter": {}, "sort": {"_id": 1}, "batchSize": 2, "$db": "d"}).map_err(|e| json!({"find": e}))?;
    let mut key = "firstBatch";
    loop {
        rec.tick();
        let (docs, id) = batch_of(&r, key).map_err(|e| json!({"reading": e}))?;
        for d in docs { if *d.get("_id").unwrap() != Bson::Int32(seen as i32) || d.get_str("v") != Ok(&fill(seen)) { return Err(json!({"document": seen, "differs": d.get("_id").map(|x| x.to_string())})); } seen += 1; }
        if id == 0 { break; }
        r = k.command(doc! {"getMore": id, "collection": &coll, "batchSize": 2.max((2_000_000 / size) as i32), "$db": "d"}).map_err(|e| json!({"getMore": e}))?;
        key = "nextBatch";
    }
    if seen != count { return Err(json!({"documents found": seen})); }
    let r = k.ask(&Cmd::Del(vec![(doc! {}, 0)], true).msg(&coll)).map_err(|e| json!({"delete": e}))?;
    if r.ok() != Some(true) || r.n("n") != Some(count as i64) { return Err(json!({"delete": r.doc.to_string()})); }
    rec.count("traces_validated_against_impl", 1);
    Ok(())
}

fn command_case(rec: &mut Rec, env: &mut Env, cmds: &[Cmd], pipelined: bool) -> Result<(), Value> {
    env.ready(rec)?;
    let coll = fresh_name("k");
    let base = vec![doc! {"_id": 1, "a": 1, "b": 1}, doc! {"_id": 2, "a": 1, "b": 2}, doc! {"_id": 3, "a": 2}];
    let mut m = MDb::default();
    for d in &base { m = model_step(&m, &Op::Ins("k", d.clone()))[0].0.clone(); }
    let fail = |i: usize, e: String| json!({"command": i, "problem": e});
    let r = env.conns[0].ask(&Cmd::Ins(base, false).msg(&coll)).map_err(|e| fail(0, e))?;
    if r.ok() != Some(true) { return Err(fail(0, format!("preparation: {}", r.doc))); }
    let mut cands = vec![m];
    if pipelined {
        let mut ids = vec![];
        for (i, c) in cmds.iter().enumerate() { let id = env.conns[0].send(&c.msg(&coll)).map_err(|e| fail(i, e))?; if !matches!(c, Cmd::Quiet(_)) { ids.push((i, id)); } else { ids.push((i, -1)); } }
        for (i, id) in ids {
            rec.tick();
            rec.count("transitions", 1);
            cands = if id < 0 { quiet(&cmds[i], &cands) } else {
                let r = env.conns[0].recv().map_err(|e| fail(i, e))?;
                if r.response_to != id { return Err(fail(i, format!("the reply names request {} instead of {id}: {}", r.response_to, r.doc))); }
                judge(&cmds[i], &r, &cands, &mut env.conns[1], &coll, false).map_err(|e| fail(i, e))?
            };
        }
    } else {
        for (i, c) in cmds.iter().enumerate() {
            rec.tick();
            rec.count("transitions", 1);
            let k = i % 2;
            cands = if let Cmd::Quiet(_) = c {
                env.conns[k].send(&c.msg(&coll)).map_err(|e| fail(i, e))?;
                quiet(c, &cands)
            } else {
                let r = env.conns[k].ask(&c.msg(&coll)).map_err(|e| fail(i, e))?;
                judge(c, &r, &cands, &mut env.conns[2], &coll, true).map_err(|e| fail(i, e))?
            };
            if let Cmd::Quiet(_) = c { let r = env.conns[k].command(doc! {"ping": 1}).map_err(|e| fail(i, format!("after a command which wants no reply: {e}")))?; if r.ok() != Some(true) { return Err(fail(i, format!("{}", r.doc))); } }
        }
    }
    // both connections go on, and see what the commands have made
    for k in 0..2 {
        let got = fetch(&mut env.conns[k], &coll, doc! {}).map_err(|e| fail(99, format!("afterwards: {e}")))?;
        let g: BTreeMap<String, String> = got.iter().map(|d| (d.get("_id").map(idkey).unwrap_or_default(), rsorted(d))).collect();
        if g.len() != got.len() || !cands.iter().any(|m| mstate(m).get("k").cloned().unwrap_or_default() == g) { return Err(fail(99, format!("afterwards the documents are {g:?}, expected {:?}", cands.iter().map(mstate).collect::<Vec<_>>()))); }
        rec.state(h64(&format!("{g:?}")));
    }
    let r = env.conns[0].ask(&Cmd::Del(vec![(doc! {}, 0)], true).msg(&coll)).map_err(|e| fail(99, e))?;
    if r.ok() != Some(true) { return Err(fail(99, format!("{}", r.doc))); }
    rec.count("traces_validated_against_impl", 1);
    Ok(())
}
fn quiet(c: &Cmd, cands: &[MDb]) -> Vec<MDb> { cands.iter().flat_map(|m| sub_ops(c).into_iter().flat_map(|op| model_step(m, &op)).map(|x| x.0)).collect() }

// ---------------------------------------------------------------- P28

const CUR: [(&str, i32); 2] = [("two", 2), ("five", 5)];
#[derive(Clone, Copy, Debug)]
enum Cs { Open(usize, Option<i32>, bool), More(usize, Option<i32>), Kill(usize), Foreign }
impl Cs { fn text(&self) -> String { match self { Cs::Open(c, b, agg) => format!("{}({}{})", if *agg { "aggregate" } else { "find" }, CUR[*c].0, b.map(|b| format!(", batch {b}")).unwrap_or_default()), Cs::More(s, b) => format!("more(cursor {s}, batch {b:?})"), Cs::Kill(s) => format!("kill(cursor {s})"), Cs::Foreign => "more(unknown cursor)".into() } } }

struct Cur { coll: usize, id: i64, left: BTreeSet<i32>, live: bool, /// all has been delivered, and the server may have noticed
    ended: bool }

fn cursors(rec: &mut Rec) {
    let quick = rec.quick();
    let opens = [Cs::Open(0, Some(1), false), Cs::Open(1, Some(2), false), Cs::Open(1, Some(1), false), Cs::Open(1, None, true)];
    let depth = if quick { 5 } else { 6 };
    let mut hist: Vec<Vec<Cs>> = vec![vec![Cs::Foreign]];
    fn grow(v: &mut Vec<Cs>, slots: usize, depth: usize, opens: &[Cs], out: &mut Vec<Vec<Cs>>) {
        if v.len() == depth { out.push(v.clone()); return; }
        let mut next: Vec<(Cs, usize)> = vec![];
        if slots < 3 { next.extend(opens.iter().map(|o| (*o, slots + 1))); }
        for s in 0..slots { next.extend([(Cs::More(s, Some(1)), slots), (Cs::More(s, Some(3)), slots), (Cs::Kill(s), slots)]); }
        for (s, n) in next { v.push(s); grow(v, n, depth, opens, out); v.pop(); }
    }
    grow(&mut vec![], 0, depth, &opens, &mut hist);
    let mut env = Env::new();
    let mut base = 0;
    for h in hist {
        if !rec.next() { continue; }
        let text = h.iter().map(|s| s.text()).collect::<Vec<_>>().join(" | ");
        rec.begin(|| text.clone());
        let r = cursor_case(rec, &mut env, &h, &mut base);
        rec.eval(Some(h64(&text)));
        if let Err(mut e) = r { if env.died() { e["server"] = json!("the process has ended"); } env.reset(); rec.viol(text, e); }
    }
    // what fits in a batch exactly, and the batch the server chooses
    for n in if quick { vec![0, 1, 2, 99, 100, 101, 102, 201, 202, 203, 303] } else { (0..=310).collect() } {
        for how in 0..7 {
            if !rec.next() { continue; }
            let text = format!("{n} documents, {}", HOW[how]);
            rec.begin(|| text.clone());
            let r = batch_case(rec, &mut env, n, how);
            rec.eval(Some(h64(&text)));
            if let Err(mut e) = r { if env.died() { e["server"] = json!("the process has ended"); } env.reset(); rec.viol(text, e); }
        }
    }
    env.drop_all();
}
const HOW: [&str; 7] = ["find", "find sorted", "find, batches of 100", "find with a filter, batches of 101", "aggregate", "find in a transaction", "aggregate, then batches of 7"];
fn batch_case(rec: &mut Rec, env: &mut Env, n: i32, how: usize) -> Result<(), Value> {
    env.ready(rec)?;
    let coll = fresh_name("k");
    let docs: Vec<Document> = (0..n).map(|i| doc! {"_id": i, "v": i}).collect();
    let sess = new_session();
    let mut extra = doc! {"$db": "d"};
    if how == 5 { extra.extend(doc! {"lsid": sess.lsid, "txnNumber": 1i64, "autocommit": false}); }
    if n > 0 {
        let r = env.conns[0].ask(&Cmd::Ins(docs, false).msg(&coll)).map_err(|e| json!({"preparation": e}))?;
        if r.ok() != Some(true) { return Err(json!({"preparation": r.doc.to_string()})); }
    }
    let (mut d, size) = match how {
        0 => (doc! {"find": &coll, "filter": {}}, None),
        1 => (doc! {"find": &coll, "filter": {}, "sort": {"v": -1}}, None),
        2 => (doc! {"find": &coll, "filter": {}, "batchSize": 100}, Some(100)),
        3 => (doc! {"find": &coll, "filter": {"v": {"$gte": 0}}, "batchSize": 101}, Some(101)),
        5 => (doc! {"find": &coll, "filter": {}, "startTransaction": true}, None),
        _ => (doc! {"aggregate": &coll, "pipeline": [{"$sort": {"v": -1}}], "cursor": {}}, if how == 6 { Some(7) } else { None }),
    };
    d.extend(extra.clone());
    let mut r = env.conns[0].command(d).map_err(|e| json!({"problem": e}))?;
    let mut all: Vec<i32> = vec![];
    let mut key = "firstBatch";
    for step in 1..400 {
        rec.tick();
        if r.ok() != Some(true) { return Err(json!({"refused": r.doc.to_string()})); }
        let (docs, id) = batch_of(&r, key).map_err(|e| json!({"problem": e}))?;
        if let (Some(s), true) = (size, how != 6 || step > 1) { if docs.len() > s as usize { return Err(json!({"a batch of": docs.len()})); } }
        ints(&docs).map_err(|e| json!({"problem": e}))?;
        all.extend(docs.iter().map(|d| d.get_i32("_id").unwrap()));
        if id == 0 { break; }
        let mut d = doc! {"getMore": id, "collection": &coll};
        if let Some(s) = size { d.insert("batchSize", s); }
        d.extend(extra.clone());
        r = env.conns[step % 2].command(d).map_err(|e| json!({"problem": e}))?;
        key = "nextBatch";
    }
    let mut want: Vec<i32> = (0..n).collect();
    if how == 1 || how == 4 || how == 6 { want.reverse(); } else { all.sort(); }
    if all != want { return Err(json!({"delivered": format!("{all:?}")})); }
    if how == 5 {
        let r = env.conns[0].command(doc! {"commitTransaction": 1, "lsid": extra.get("lsid").unwrap().clone(), "txnNumber": 1i64, "autocommit": false, "$db": "admin"}).map_err(|e| json!({"commit": e}))?;
        if r.ok() != Some(true) { return Err(json!({"commit": r.doc.to_string()})); }
    }
    rec.count("traces_validated_against_impl", 1);
    Ok(())
}
fn ints(v: &[Document]) -> Result<BTreeSet<i32>, String> {
    let mut s = BTreeSet::new();
    for d in v { let i = d.get("_id").and_then(num).ok_or(format!("{d}"))? as i32; if !s.insert(i) { return Err(format!("document {i} twice in a batch")); } if *d != doc! {"_id": i, "v": i} { return Err(format!("{d}")); } }
    Ok(s)
}
fn cursor_case(rec: &mut Rec, env: &mut Env, h: &[Cs], base: &mut u16) -> Result<(), Value> {
    env.ready(rec)?;
    let port = env.srv.as_ref().unwrap().port;
    if *base != port {
        for (c, n) in CUR {
            let docs: Vec<Document> = (0..n).map(|i| doc! {"_id": i, "v": i}).collect();
            let r = env.conns[0].ask(&Msg { flags: 0, doc: doc! {"insert": c, "$db": "d"}, seqs: vec![("documents".into(), docs)] }).map_err(|e| json!({"preparation": e}))?;
            if r.ok() != Some(true) { return Err(json!({"preparation": r.doc.to_string()})); }
        }
        *base = port;
    }
    let mut cs: Vec<Cur> = vec![];
    let mut r = Ok(());
    for (i, s) in h.iter().enumerate() {
        rec.tick();
        rec.count("transitions", 1);
        if let Err(e) = cursor_step(&mut env.conns, i, s, &mut cs) { r = Err(json!({"step": i, "problem": e})); break; }
        rec.state(h64(&cs.iter().map(|c| (c.coll, c.left.clone(), c.live, c.ended)).collect::<Vec<_>>()));
    }
    // every cursor is read to its end
    if r.is_ok() {
        'all: for s in 0..cs.len() {
            let mut n = 0;
            while cs[s].live { n += 1; if let Err(e) = if n > 20 { Err("no end".to_string()) } else { cursor_step(&mut env.conns, n, &Cs::More(s, None), &mut cs) } { r = Err(json!({"reading to the end": s, "problem": e})); break 'all; } }
            if !cs[s].ended { continue; }
            if let Err(e) = cursor_step(&mut env.conns, 0, &Cs::More(s, None), &mut cs) { r = Err(json!({"after the end": s, "problem": e})); break 'all; }
        }
    }
    let ids: Vec<i64> = cs.iter().filter(|c| c.live && c.id != 0).map(|c| c.id).collect();
    if !ids.is_empty() { let _ = env.conns[0].command(doc! {"killCursors": "x", "cursors": ids, "$db": "d"}); }
    if r.is_ok() { rec.count("traces_validated_against_impl", 1); }
    r
}
fn cursor_step(conns: &mut [Conn], i: usize, s: &Cs, cs: &mut Vec<Cur>) -> Result<(), String> {
    let k = &mut conns[i % 2];
    match *s {
        Cs::Foreign => for id in [0i64, 987654, -1] { let r = k.command(doc! {"getMore": id, "collection": "two", "$db": "d"})?; if r.ok() != Some(false) { return Err(format!("{}", r.doc)); } },
        Cs::Open(c, b, agg) => {
            let mut d = if agg { doc! {"aggregate": CUR[c].0, "pipeline": [{"$sort": {"_id": 1}}], "cursor": {}} } else { doc! {"find": CUR[c].0, "filter": {}} };
            if let Some(b) = b { d.insert("batchSize", b); }
            d.insert("$db", "d");
            let r = k.command(d)?;
            if r.ok() != Some(true) { return Err(format!("{}", r.doc)); }
            let (docs, id) = batch_of(&r, "firstBatch")?;
            if let Some(b) = b { if docs.len() > b as usize { return Err(format!("{} documents in a batch of {b}", docs.len())); } }
            let got = ints(&docs)?;
            let all: BTreeSet<i32> = (0..CUR[c].1).collect();
            if !got.is_subset(&all) { return Err(format!("documents {got:?}")); }
            let left: BTreeSet<i32> = all.difference(&got).cloned().collect();
            if id == 0 && !left.is_empty() { return Err(format!("no cursor although {left:?} are missing")); }
            if id != 0 { if let Some(x) = cs.iter().position(|x| x.live && x.id == id) { return Err(format!("the number {id} belongs to cursor {x}")); } }
            cs.push(Cur { coll: c, id, left, live: id != 0, ended: false });
        }
        Cs::More(n, b) => {
            let id = cs[n].id;
            if id == 0 { return Ok(()); }
            // a number may have been given again after its cursor was gone
            if !cs[n].live && cs.iter().any(|x| x.live && x.id == id) { return Ok(()); }
            let mut d = doc! {"getMore": id, "collection": CUR[cs[n].coll].0};
            if let Some(b) = b { d.insert("batchSize", b); }
            d.insert("$db", "d");
            let r = k.command(d)?;
            if !cs[n].live { return if r.ok() == Some(false) { Ok(()) } else { Err(format!("a cursor which is gone answers {}", r.doc)) }; }
            if r.ok() != Some(true) { return Err(format!("getMore: {}", r.doc)); }
            let (docs, next) = batch_of(&r, "nextBatch")?;
            if let Some(b) = b { if docs.len() > b as usize { return Err(format!("{} documents in a batch of {b}", docs.len())); } }
            let got = ints(&docs)?;
            if !got.is_subset(&cs[n].left) { return Err(format!("delivered {got:?}, missing were {:?}", cs[n].left)); }
            for x in &got { cs[n].left.remove(x); }
            if next == 0 { if !cs[n].left.is_empty() { return Err(format!("the cursor ends although {:?} are missing", cs[n].left)); } cs[n].live = false; cs[n].ended = true; }
            else if next != id { return Err(format!("cursor {id} becomes {next}")); }
            else if got.is_empty() { return Err("an empty batch, and no end".into()); }
        }
        Cs::Kill(n) => {
            if cs[n].id == 0 || (!cs[n].live && cs.iter().any(|x| x.live && x.id == cs[n].id)) { return Ok(()); }
            let list = [vec![cs[n].id], vec![987654, cs[n].id], vec![cs[n].id, 987654], vec![-1, cs[n].id, cs[n].id]][i % 4].clone();
            let r = k.command(doc! {"killCursors": CUR[cs[n].coll].0, "cursors": list, "$db": "d"})?;
            if r.ok() != Some(true) { return Err(format!("killCursors: {}", r.doc)); }
            cs[n].live = false;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P29

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do { Ins(i32), Upd, UpdMany, Del, DelMany, Find, Count, /// a sorted page
    Page, /// an update which inserts
    Upsert }
#[derive(Clone, Copy, Debug)]
enum Ss { /// in the session's transaction, which it begins when there is none
    T(usize, Do), /// with the session, outside any transaction
    O(usize, Do), /// without a session
    N(Do), Commit(usize), Abort(usize), /// claims to be in a transaction
    X(usize, Do) }
impl Ss { fn text(&self) -> String { format!("{self:?}") } }

type Docs = BTreeMap<i32, Document>;
struct Sess { lsid: Document, txn: Option<Docs>, number: i64, committed: bool }
fn own(who: usize, id: i32) -> bool { id / 10 == who as i32 + 1 }

fn sessions(rec: &mut Rec) {
    let quick = rec.quick();
    let mut full: Vec<Ss> = vec![];
    for s in 0..2 {
        for d in [Do::Ins(0), Do::Ins(2), Do::Upd, Do::UpdMany, Do::Del, Do::DelMany, Do::Find, Do::Count, Do::Page, Do::Upsert] { full.push(Ss::T(s, d)); }
        full.extend([Ss::Commit(s), Ss::Abort(s), Ss::O(s, Do::Ins(0)), Ss::O(s, Do::Find), Ss::X(s, Do::Ins(0))]);
    }
    full.extend([Ss::N(Do::Ins(0)), Ss::N(Do::Find)]);
    let small: Vec<Ss> = vec![Ss::T(0, Do::Ins(2)), Ss::T(0, Do::UpdMany), Ss::T(0, Do::Find), Ss::Commit(0), Ss::Abort(0), Ss::O(0, Do::Ins(0)), Ss::T(1, Do::Ins(0)), Ss::Commit(1), Ss::Abort(1), Ss::N(Do::Upd)];
    let mut hist: Vec<Vec<Ss>> = vec![];
    for d in 1..=if quick { 2 } else { 3 } { sequences(full.len(), d, |q| hist.push(q.iter().map(|i| full[*i]).collect())); }
    let full: Vec<Ss> = full.into_iter().filter(|s| quick || !matches!(s, Ss::T(_, Do::Page | Do::Upsert | Do::Count))).collect();
    sequences(full.len(), if quick { 3 } else { 4 }, |q| if matches!(full[q[0]], Ss::T(0, _)) { hist.push(q.iter().map(|i| full[*i]).collect()) });
    for d in 4..=if quick { 4 } else { 5 } { sequences(small.len(), d, |q| if matches!(small[q[0]], Ss::T(0, _)) { hist.push(q.iter().map(|i| small[*i]).collect()) }); }
    let mut env = Env::new();
    for h in hist {
        if !rec.next() { continue; }
        let text = h.iter().map(|s| s.text()).collect::<Vec<_>>().join(" | ");
        rec.begin(|| text.clone());
        let r = session_case(rec, &mut env, &h);
        rec.eval(Some(h64(&text)));
        if let Err(mut e) = r { if env.died() { e["server"] = json!("the process has ended"); } env.drop_all(); rec.viol(text, e); }
    }
    // the server stops while transactions are open
    if rec.next() {
        rec.begin(|| "server killed with an open transaction".into());
        env.drop_all();
        if let Err(e) = killed(rec, &mut env) { rec.viol("server killed with an open transaction", e); }
        rec.eval(None);
    }
    env.drop_all();
}
fn send_do(k: &mut Conn, coll: &str, who: usize, d: Do, extra: &Document) -> Result<Reply, String> {
    let lo = 10 * (who as i32 + 1);
    let range = doc! {"$gte": lo, "$lt": lo + 10};
    let mut m = match d {
        Do::Ins(i) => Msg { flags: 0, doc: doc! {"insert": coll}, seqs: vec![("documents".into(), vec![doc! {"_id": lo + i, "v": 1}])] },
        Do::Upd => Msg::of(doc! {"update": coll, "updates": [{"q": {"_id": lo + 1}, "u": {"$inc": {"v": 1}}, "multi": false}]}),
        Do::UpdMany => Msg::of(doc! {"update": coll, "updates": [{"q": {"_id": range}, "u": {"$inc": {"v": 10}}, "multi": true}]}),
        Do::Del => Msg::of(doc! {"delete": coll, "deletes": [{"q": {"_id": lo + 1}, "limit": 1}]}),
        Do::DelMany => Msg::of(doc! {"delete": coll, "deletes": [{"q": {"_id": range}, "limit": 0}]}),
        Do::Find => Msg::of(doc! {"find": coll, "filter": {}, "batchSize": 1000}),
        Do::Page => Msg::of(doc! {"find": coll, "filter": {"_id": {"$gte": lo - 9}}, "sort": {"_id": -1}, "skip": 1, "limit": 3, "batchSize": 1000}),
        Do::Upsert => Msg::of(doc! {"update": coll, "updates": [{"q": {"_id": lo + 3}, "u": {"$set": {"v": 7}}, "upsert": true}]}),
        Do::Count => Msg::of(doc! {"aggregate": coll, "pipeline": [{"$sort": {"_id": 1}}], "cursor": {}}),
    };
    m.doc.insert("$db", "d");
    m.doc.extend(extra.clone());
    k.ask(&m)
}
/// what the statement does to the documents seen, and the reply that goes with it
fn apply_do(view: &mut Docs, who: usize, d: Do, r: &Reply) -> Result<(), String> {
    let lo = 10 * (who as i32 + 1);
    let want = |n: i64, r: &Reply| if r.ok() == Some(true) && r.n("n") == Some(n) { Ok(()) } else { Err(format!("reply {}, expected n: {n}", r.doc)) };
    let inc = |x: &mut Document, by: i32| { let v = x.get_i32("v").unwrap(); x.insert("v", v + by); };
    match d {
        Do::Ins(i) => {
            if view.contains_key(&(lo + i)) { return if r.ok() == Some(false) { Ok(()) } else { Err(format!("a second document {} is accepted: {}", lo + i, r.doc)) }; }
            want(1, r)?;
            view.insert(lo + i, doc! {"_id": lo + i, "v": 1});
        }
        Do::Upd => { let n = view.get_mut(&(lo + 1)).map(|x| inc(x, 1)).is_some(); want(n as i64, r)?; }
        Do::UpdMany => { let mut n = 0; for (i, x) in view.iter_mut() { if own(who, *i) { inc(x, 10); n += 1; } } want(n, r)?; }
        Do::Del => { let n = view.remove(&(lo + 1)).is_some(); want(n as i64, r)?; }
        Do::DelMany => { let b = view.len(); view.retain(|i, _| !own(who, *i)); want((b - view.len()) as i64, r)?; }
        Do::Upsert => {
            if view.contains_key(&(lo + 3)) { want(1, r)?; } else if r.ok() != Some(true) { return Err(format!("{}", r.doc)); }
            view.insert(lo + 3, doc! {"_id": lo + 3, "v": 7});
        }
        Do::Page => {
            if r.ok() != Some(true) { return Err(format!("{}", r.doc)); }
            let g: Vec<String> = batch_of(r, "firstBatch")?.0.iter().map(rsorted).collect();
            let w: Vec<String> = view.values().rev().filter(|d| d.get_i32("_id").unwrap() >= lo - 9).skip(1).take(3).map(rsorted).collect();
            if g != w { return Err(format!("the page is {g:?}, expected {w:?}")); }
        }
        Do::Find | Do::Count => {
            if r.ok() != Some(true) { return Err(format!("{}", r.doc)); }
            let (docs, _) = batch_of(r, "firstBatch")?;
            let g: BTreeSet<String> = docs.iter().map(rsorted).collect();
            let w: BTreeSet<String> = view.values().map(rsorted).collect();
            if g != w || g.len() != docs.len() { return Err(format!("sees {g:?}, expected {w:?}")); }
        }
    }
    Ok(())
}
fn new_session() -> Sess {
    let n = fresh_name("").parse::<u64>().unwrap();
    let mut b = [7u8; 16];
    b[..8].copy_from_slice(&n.to_le_bytes());
    Sess { lsid: doc! {"id": Bson::Binary(bson::Binary { subtype: bson::spec::BinarySubtype::Uuid, bytes: b.to_vec() })}, txn: None, number: 0, committed: false }
}
fn prepare(k: &mut Conn, coll: &str) -> Result<Docs, String> {
    let base: Vec<Document> = [1, 10, 11, 20, 21, 31].iter().filter(|i| **i != 10 && **i != 20).map(|i| doc! {"_id": *i, "v": 0}).collect();
    let r = k.ask(&Msg { flags: 0, doc: doc! {"insert": coll, "$db": "d"}, seqs: vec![("documents".into(), base.clone())] })?;
    if r.ok() != Some(true) { return Err(format!("preparation: {}", r.doc)); }
    Ok(base.into_iter().map(|d| (d.get_i32("_id").unwrap(), d)).collect())
}
fn session_case(rec: &mut Rec, env: &mut Env, h: &[Ss]) -> Result<(), Value> {
    env.ready(rec)?;
    let coll = fresh_name("k");
    let mut all = prepare(&mut env.conns[0], &coll).map_err(|e| json!({"problem": e}))?;
    let mut ss = vec![new_session(), new_session()];
    for (i, s) in h.iter().enumerate() {
        rec.tick();
        rec.count("transitions", 1);
        session_step(&mut env.conns[(i + 1) % 2], &coll, *s, &mut all, &mut ss).map_err(|e| json!({"step": i, "what": s.text(), "problem": e}))?;
        // nobody else sees what is not committed
        let r = send_do(&mut env.conns[2], &coll, 2, Do::Find, &doc! {}).and_then(|r| apply_do(&mut all, 2, Do::Find, &r));
        if let Err(e) = r { return Err(json!({"after step": i, "what": s.text(), "without a session": e})); }
        rec.state(h64(&format!("{all:?} {:?} {:?}", ss[0].txn, ss[1].txn)));
    }
    // what is still open is committed or aborted, and the session used again
    for k in 0..2 {
        let end = if k == 0 { Ss::Abort(0) } else { Ss::Commit(1) };
        if ss[k].txn.is_some() { session_step(&mut env.conns[k], &coll, end, &mut all, &mut ss).map_err(|e| json!({"ending": k, "problem": e}))?; }
        for s in [Ss::O(k, Do::Find), Ss::O(k, Do::Upd), Ss::T(k, Do::Find), Ss::T(k, Do::Upd), Ss::Commit(k)] { session_step(&mut env.conns[k], &coll, s, &mut all, &mut ss).map_err(|e| json!({"using the session again": k, "what": s.text(), "problem": e}))?; }
    }
    send_do(&mut env.conns[2], &coll, 2, Do::Find, &doc! {}).and_then(|r| apply_do(&mut all, 2, Do::Find, &r)).map_err(|e| json!({"at the end": e}))?;
    rec.count("traces_validated_against_impl", 1);
    Ok(())
}
fn session_step(k: &mut Conn, coll: &str, s: Ss, all: &mut Docs, ss: &mut [Sess]) -> Result<(), String> {
    match s {
        Ss::T(i, d) => {
            let x = &mut ss[i];
            let mut extra = doc! {"lsid": x.lsid.clone(), "autocommit": false};
            if x.txn.is_none() { extra.insert("startTransaction", true); x.number += 1; x.txn = Some(all.iter().filter(|(id, _)| own(i, **id)).map(|(a, b)| (*a, b.clone())).collect()); }
            extra.insert("txnNumber", x.number);
            let r = send_do(k, coll, i, d, &extra)?;
            let mut view: Docs = all.iter().filter(|(id, _)| !own(i, **id)).map(|(a, b)| (*a, b.clone())).collect();
            view.extend(x.txn.clone().unwrap());
            apply_do(&mut view, i, d, &r)?;
            x.txn = Some(view.into_iter().filter(|(id, _)| own(i, *id)).collect());
            x.committed = false;
        }
        Ss::O(i, d) => {
            // a session is in one transaction at most: what a plain statement does meanwhile is left open
            if ss[i].txn.is_some() { return Ok(()); }
            let r = send_do(k, coll, i, d, &doc! {"lsid": ss[i].lsid.clone()})?;
            apply_do(all, i, d, &r)?;
        }
        Ss::N(d) => { let r = send_do(k, coll, 2, d, &doc! {})?; apply_do(all, 2, d, &r)?; }
        Ss::X(i, d) => {
            if ss[i].txn.is_some() { return Ok(()); }
            let r = send_do(k, coll, i, d, &doc! {"lsid": ss[i].lsid.clone(), "autocommit": false, "txnNumber": 99i64})?;
            if r.ok() != Some(false) { return Err(format!("a statement of a transaction which nobody began is accepted: {}", r.doc)); }
        }
        Ss::Commit(i) | Ss::Abort(i) => {
            let commit = matches!(s, Ss::Commit(_));
            let r = k.command(doc! {if commit { "commitTransaction" } else { "abortTransaction" }: 1, "lsid": ss[i].lsid.clone(), "autocommit": false, "txnNumber": ss[i].number, "$db": "admin"})?;
            match ss[i].txn.take() {
                Some(t) => {
                    if r.ok() != Some(true) { return Err(format!("{}", r.doc)); }
                    if commit { all.retain(|id, _| !own(i, *id)); all.extend(t); ss[i].committed = true; }
                }
                // a commit may be repeated
                None => if r.ok() != Some(false) && !(commit && ss[i].committed) { return Err(format!("there is no transaction to end: {}", r.doc)); },
            }
        }
    }
    Ok(())
}
fn killed(rec: &mut Rec, env: &mut Env) -> Result<(), Value> {
    env.ready(rec)?;
    let mut all = prepare(&mut env.conns[0], "k").map_err(|e| json!({"problem": e}))?;
    let mut ss = vec![new_session(), new_session()];
    for s in [Ss::T(0, Do::Ins(2)), Ss::T(1, Do::UpdMany), Ss::Commit(1), Ss::T(0, Do::Upd), Ss::N(Do::Upd)] { session_step(&mut env.conns[0], "k", s, &mut all, &mut ss).map_err(|e| json!({"what": s.text(), "problem": e}))?; }
    let mut old = env.srv.take().unwrap();
    env.conns.clear();
    old.stop();
    env.srv = Some(Server::start(&old.path, None, None).map_err(|e| json!({"starting again": e}))?);
    env.ready(rec)?;
    send_do(&mut env.conns[0], "k", 2, Do::Find, &doc! {}).and_then(|r| apply_do(&mut all, 2, Do::Find, &r)).map_err(|e| json!({"after starting again": e}))
}

// ---------------------------------------------------------------- P30

fn hostile_family() -> Vec<(&'static str, Vec<u8>)> {
    let coll = "k";
    let body = Msg::of(doc! {"ping": 1, "$db": "d"}).body();
    let mut query = 0u32.to_le_bytes().to_vec();
    query.extend(b"admin.$cmd\0");
    query.extend(0i32.to_le_bytes());
    query.extend((-1i32).to_le_bytes());
    query.extend(bson::to_vec(&doc! {"isMaster": 1, "helloOk": true}).unwrap());
    let mut comp = 2013i32.to_le_bytes().to_vec();
    comp.extend((body.len() as i32).to_le_bytes());
    comp.push(0);
    comp.extend(&body);
    vec![
        ("ping", frame(5, 2013, &body)),
        ("insert", Msg { flags: 0, doc: doc! {"insert": coll, "$db": "d"}, seqs: vec![("documents".into(), vec![doc! {"_id": 900, "a": [1, "x"]}, doc! {"_id": 901}])] }.bytes(5)),
        ("find", Msg::of(doc! {"find": coll, "filter": {"_id": 1}, "limit": 1i64, "skip": 0i64, "batchSize": 2, "$db": "d"}).bytes(5)),
        ("update", Msg::of(doc! {"update": coll, "updates": [{"q": {"_id": 900}, "u": {"$set": {"a": 1}}}], "$db": "d"}).bytes(5)),
        ("query", frame(5, 2004, &query)),
        ("compressed", frame(5, 2012, &comp)),
        ("session", Msg::of(doc! {"find": coll, "filter": {}, "lsid": {"id": Bson::Binary(bson::Binary { subtype: bson::spec::BinarySubtype::Uuid, bytes: vec![3; 16] })}, "$db": "d"}).bytes(5)),
        ("getMore", Msg::of(doc! {"getMore": 12345i64, "collection": coll, "$db": "d"}).bytes(5)),
    ]
}
/// the type and the bytes of a value nested in documents or arrays, made without recursion
fn nested_bytes(depth: usize, kind: usize) -> (u8, Vec<u8>) {
    let ty = |i: usize| if kind == 0 || kind == 2 && i % 2 == 0 { 3u8 } else { 4 };
    // level i (the innermost is 0) holds level i - 1 under a name of one character
    let len = |i: usize| 4 + 1 + 2 + 4 + 1 + 8 * i;
    let mut b = vec![];
    for i in (0..depth).rev() { b.extend((len(i) as i32).to_le_bytes()); b.push(if i == 0 { 16 } else { ty(i - 1) }); b.extend(b"0\0"); }
    b.extend(1i32.to_le_bytes());
    b.extend(vec![0u8; depth]);
    (ty(depth - 1), b)
}
fn hostile(rec: &mut Rec) {
    let quick = rec.quick();
    let mut streams: Vec<(String, Vec<u8>)> = vec![];
    for (name, m) in hostile_family() {
        for n in 0..m.len() { streams.push((format!("{name}, the first {n} bytes"), m[..n].to_vec())); }
        for i in 0..m.len() {
            for x in 0..=255u8 { if x != m[i] { let mut b = m.clone(); b[i] = x; streams.push((format!("{name}, byte {i} is {x:#x}"), b)); } }
        }
        // every word which may be a length
        for i in 0..m.len() - 3 {
            for x in [0i32, -1, i32::MIN, i32::MAX, 0x7000_0000, 0x3000_0000, 3, 4, 5] { let mut b = m.clone(); b[i..i + 4].copy_from_slice(&x.to_le_bytes()); if b != m { streams.push((format!("{name}, bytes {i}..{} are {x:#x}", i + 4), b)); } }
        }
        // two bytes changed
        if !quick {
            for i in 0..m.len() { for j in 0..i { for (x, y) in [(0u8, 0u8), (0, 0xff), (0xff, 0), (0xff, 0xff), (m[i].wrapping_add(1), m[j].wrapping_sub(1)), (m[i].wrapping_sub(1), m[j].wrapping_add(1)), (0x7f, 1), (1, 0x7f)] {
                let mut b = m.clone(); b[i] = x; b[j] = y; if b != m { streams.push((format!("{name}, bytes {i} and {j} are {x:#x} and {y:#x}"), b)); }
            } } }
        }
        let mut twice = m.clone(); twice.extend(&m); streams.push((format!("{name}, twice"), twice));
        streams.push((format!("{name}, with bytes after it"), [m.clone(), vec![0; 7]].concat()));
    }
    // values nested in values: deep ones may be refused, and must not end the server
    let mut depths: Vec<usize> = (1..=40).map(|i| i * 10).collect();
    depths.extend([600, 1000, 2000, 5000, 20_000, 100_000]);
    for depth in depths { for kind in 0..3 {
        let raw = nested_bytes(depth, kind);
        let put = |doc: Document, at: &str| -> Vec<u8> { let mut b = bson::to_vec(&doc).unwrap(); let mut e = vec![raw.0]; e.extend(at.as_bytes()); e.push(0); e.extend(&raw.1); let n = b.len() - 1; b.splice(n..n, e); let l = (b.len() as i32).to_le_bytes(); b[..4].copy_from_slice(&l); b };
        let msg = |d: Vec<u8>, seq: Option<(&str, Vec<u8>)>| { let mut b = 0u32.to_le_bytes().to_vec(); b.push(0); b.extend(d); if let Some((n, d)) = seq { b.push(1); b.extend(((4 + n.len() + 1 + d.len()) as i32).to_le_bytes()); b.extend(n.as_bytes()); b.push(0); b.extend(d); } frame(5, 2013, &b) };
        let name = ["documents", "arrays", "documents and arrays"][kind];
        streams.push((format!("ping with {depth} nested {name}"), msg(put(doc! {"ping": 1, "$db": "d"}, "x"), None)));
        streams.push((format!("insert of {depth} nested {name}"), msg(bson::to_vec(&doc! {"insert": "deep", "$db": "d"}).unwrap(), Some(("documents", put(doc! {"_id": bson::oid::ObjectId::from_bytes([(depth % 251) as u8, (depth / 251) as u8, kind as u8, 0, 0, 0, 0, 0, 0, 0, 0, 0])}, "x"))))));
        streams.push((format!("find with {depth} nested {name}"), msg(put(doc! {"find": "safe", "$db": "d"}, "filter"), None)));
        streams.push((format!("find of a field with {depth} nested {name}"), msg({ let f = put(doc! {}, "v"); let mut d = bson::to_vec(&doc! {"find": "safe", "$db": "d"}).unwrap(); let n = d.len() - 1; let mut e = vec![3u8]; e.extend(b"filter\0"); e.extend(f); d.splice(n..n, e); let l = (d.len() as i32).to_le_bytes(); d[..4].copy_from_slice(&l); d }, None)));
    } }
    let mut srv: Option<(Server, Conn)> = None;
    for (text, b) in streams {
        if !rec.next() { continue; }
        rec.begin(|| text.clone());
        rec.count("transitions", 1);
        let r = (|| -> Result<(), Value> {
            if srv.as_mut().map_or(true, |s| !s.0.alive()) {
                // a claimed length must not become memory (the server itself needs less than 1 GiB of addresses)
                let s = Server::start(&fresh_path(&rec.scratch), None, Some(3 << 29)).map_err(|e| json!({"problem": e}))?;
                let mut c = s.connect().map_err(|e| json!({"connect": e}))?;
                let r = c.ask(&Msg { flags: 0, doc: doc! {"insert": "safe", "$db": "d"}, seqs: vec![("documents".into(), vec![doc! {"_id": 1, "v": "x"}])] }).map_err(|e| json!({"problem": e}))?;
                if r.ok() != Some(true) { return Err(json!({"preparation": r.doc.to_string()})); }
                srv = Some((s, c));
            }
            let (s, ctl) = srv.as_mut().unwrap();
            let mut k = s.connect().map_err(|e| json!({"connect": e}))?;
            let _ = k.raw(&b);
            let reply = k.finish().map_err(|e| json!({"the connection": e}))?;
            let mut rest = &reply[..];
            while !rest.is_empty() { match parse(rest) { Ok((_, n)) => rest = &rest[n..], Err(e) => return Err(json!({"reply": e, "bytes": format!("{:?}", &rest[..rest.len().min(60)])})) } }
            // everybody else is served as before
            let all = fetch(ctl, "safe", doc! {}).map_err(|e| json!({"another connection": e}))?;
            if all != vec![doc! {"_id": 1, "v": "x"}] { return Err(json!({"another connection finds": format!("{all:?}")})); }
            rec.state(h64(&reply.len()));
            rec.count("traces_validated_against_impl", 1);
            Ok(())
        })();
        rec.eval(Some(h64(&text)));
        if let Err(mut e) = r { std::thread::sleep(std::time::Duration::from_millis(50)); if srv.as_mut().map_or(false, |s| !s.0.alive()) { e["server"] = json!("the process has ended"); } if let Some((mut s, _)) = srv.take() { s.stop(); let _ = std::fs::remove_dir_all(&s.path); } rec.viol(text, e); }
    }
    if let Some((mut s, _)) = srv.take() { s.stop(); let _ = std::fs::remove_dir_all(&s.path); }
    // more connections than the process may have files
    for n in [40u64, 100, 200] {
        if !rec.next() { continue; }
        let text = format!("{n} connections more than the limit on open files");
        rec.begin(|| text.clone());
        let r = (|| -> Result<(), Value> {
            let s = Server::start(&fresh_path(&rec.scratch), Some(128), None).map_err(|e| json!({"problem": e}))?;
            let mut ctl = s.connect().map_err(|e| json!({"connect": e}))?;
            let held: Vec<Conn> = (0..128 + n).filter_map(|_| s.connect().ok()).collect();
            std::thread::sleep(std::time::Duration::from_millis(100));
            if ctl.command(doc! {"ping": 1}).map_err(|e| json!({"meanwhile": e}))?.ok() != Some(true) { return Err(json!({"meanwhile": "refused"})); }
            drop(held);
            std::thread::sleep(std::time::Duration::from_millis(100));
            let mut k = s.connect().map_err(|e| json!({"a new connection afterwards": e}))?;
            if k.command(doc! {"ping": 1}).map_err(|e| json!({"a new connection afterwards": e}))?.ok() != Some(true) { return Err(json!({"afterwards": "refused"})); }
            if ctl.command(doc! {"ping": 1}).map_err(|e| json!({"afterwards": e}))?.ok() != Some(true) { return Err(json!({"afterwards": "refused"})); }
            Ok(())
        })();
        rec.eval(Some(h64(&text)));
        if let Err(e) = r { rec.viol(text, e); }
    }
}
