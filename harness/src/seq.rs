//! Exhaustive operation sequences on the real engine, each step compared with the model.
use crate::model::*;
use crate::util::*;
use bson::{Bson, Document};
use polodb_core::{Database, Transaction};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Op {
    Ins(&'static str, Document),
    InsMany(&'static str, Vec<Document>),
    Upd { c: &'static str, many: bool, q: Document, u: Document },
    Del { c: &'static str, many: bool, q: Document },
    /// `{_id: id}` as the filter
    Upsert { c: &'static str, id: Bson, u: Document },
    Idx { c: &'static str, field: &'static str, name: Option<&'static str>, unique: bool },
    DropIdx(&'static str, &'static str),
    DropColl(&'static str),
    CreateColl(&'static str),
    Reopen,
}
impl Op {
    pub fn text(&self) -> String {
        match self {
            Op::Ins(c, d) => format!("{c}.insert_one({d})"),
            Op::InsMany(c, d) => format!("{c}.insert_many([{}])", d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")),
            Op::Upd { c, many, q, u } => format!("{c}.update_{}({q}, {u})", if *many { "many" } else { "one" }),
            Op::Del { c, many, q } => format!("{c}.delete_{}({q})", if *many { "many" } else { "one" }),
            Op::Upsert { c, id, u } => format!("{c}.update_one({{_id: {id}}}, {u}, upsert)"),
            Op::Idx { c, field, name, unique } => format!("{c}.create_index({field}, name={name:?}, unique={unique})"),
            Op::DropIdx(c, n) => format!("{c}.drop_index({n})"),
            Op::DropColl(c) => format!("{c}.drop()"),
            Op::CreateColl(c) => format!("create_collection({c})"),
            Op::Reopen => "reopen".into(),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct MDb { pub colls: BTreeMap<String, MColl> }

#[derive(Clone, Debug)]
pub enum Expect { Rejected(String), Accepted, Unit, Insert(Vec<Bson>), Update { matched: u64, changed: u64 }, Delete(u64) }

fn index_name(field: &str, name: Option<&str>) -> String { name.map(|s| s.to_string()).unwrap_or(format!("{}_1", field.replace('.', "_"))) }

/// every state the specification allows after the operation, with the expected answer
pub fn model_step(db: &MDb, op: &Op) -> Vec<(MDb, Expect)> {
    let reject = |e: Reject| vec![(db.clone(), Expect::Rejected(e.0))];
    match op {
        Op::Ins(c, d) => {
            let mut n = db.clone();
            let r = n.colls.entry(c.to_string()).or_default().insert(d);
            match r { Ok(()) => vec![(n, Expect::Insert(vec![d.get("_id").unwrap().clone()]))], Err(e) => reject(e) }
        }
        Op::InsMany(c, ds) => {
            let mut n = db.clone();
            let m = n.colls.entry(c.to_string()).or_default();
            for d in ds { if let Err(e) = m.insert(d) { return reject(e); } }
            vec![(n, Expect::Insert(ds.iter().map(|d| d.get("_id").unwrap().clone()).collect()))]
        }
        Op::Upd { c, many, q, u } => {
            let none = MColl::default();
            let m = db.colls.get(*c).unwrap_or(&none);
            let ks = match m.matching(q) { Ok(k) => k, Err(e) => return reject(e) };
            if let Err(e) = validate_update(u) { return reject(e); }
            if ks.is_empty() { return vec![(db.clone(), Expect::Update { matched: 0, changed: 0 })]; }
            let groups: Vec<Vec<Vec<String>>> = if *many { vec![perms(&ks)] } else { ks.iter().map(|k| vec![vec![k.clone()]]).collect() };
            let mut out: Vec<(MDb, Expect)> = vec![];
            for orders in groups {
                // update_many visits the documents in an unspecified order, which matters only to unique indexes
                let mut seen = BTreeSet::new();
                for order in orders {
                    let mut n = db.clone();
                    let m = n.colls.get_mut(*c).unwrap();
                    let mut err = None;
                    let mut changed = 0;
                    for k in &order {
                        let old = m.docs[k].clone();
                        let mut d = old.clone();
                        match apply_update(&mut d, u).and_then(|_| m.admit(&d, k)) {
                            Ok(()) => { if rsorted(&d) != rsorted(&old) { changed += 1; } m.docs.insert(k.clone(), d); }
                            Err(e) => { err = Some(e); break; }
                        }
                    }
                    let r = match err {
                        Some(e) => (db.clone(), Expect::Rejected(e.0)),
                        None => (n, Expect::Update { matched: order.len() as u64, changed }),
                    };
                    if seen.insert(format!("{:?}{:?}", r.1, mstate(&r.0))) { out.push(r); }
                }
            }
            out
        }
        Op::Del { c, many, q } => {
            let none = MColl::default();
            let m = db.colls.get(*c).unwrap_or(&none);
            let ks = match m.matching(q) { Ok(k) => k, Err(e) => return reject(e) };
            if ks.is_empty() { return vec![(db.clone(), Expect::Delete(0))]; }
            let groups: Vec<Vec<String>> = if *many { vec![ks] } else { ks.iter().map(|k| vec![k.clone()]).collect() };
            groups.into_iter().map(|g| {
                let mut n = db.clone();
                for k in &g { n.colls.get_mut(*c).unwrap().docs.remove(k); }
                (n, Expect::Delete(g.len() as u64))
            }).collect()
        }
        Op::Upsert { c, id, u } => {
            let mut n = db.clone();
            let m = n.colls.entry(c.to_string()).or_default();
            let k = idkey(id);
            let old = m.docs.get(&k).cloned();
            let mut d = old.clone().unwrap_or_else(|| bson::doc! {"_id": id.clone()});
            match apply_update(&mut d, u).and_then(|_| m.admit(&d, &k)) { Ok(()) => { m.docs.insert(k, d); vec![(n, Expect::Accepted)] } Err(e) => reject(e) }
        }
        Op::Idx { c, field, name, unique } => {
            let mut n = db.clone();
            let r = n.colls.entry(c.to_string()).or_default().create_index(&index_name(field, *name), field, *unique);
            match r { Ok(()) => vec![(n, Expect::Unit)], Err(e) => reject(e) }
        }
        Op::DropIdx(c, name) => {
            let mut n = db.clone();
            if let Some(m) = n.colls.get_mut(*c) { m.indexes.remove(*name); }
            vec![(n, Expect::Unit)]
        }
        Op::DropColl(c) => { let mut n = db.clone(); n.colls.remove(*c); vec![(n, Expect::Unit)] }
        Op::CreateColl(c) => {
            if db.colls.contains_key(*c) { return reject(Reject("exists".into())); }
            let mut n = db.clone();
            n.colls.insert(c.to_string(), MColl::default());
            vec![(n, Expect::Unit)]
        }
        Op::Reopen => vec![(db.clone(), Expect::Unit)],
    }
}

fn perms(v: &[String]) -> Vec<Vec<String>> {
    if v.len() <= 1 || v.len() > 4 { return vec![v.to_vec()]; }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) { p.insert(0, x.clone()); out.push(p); }
    }
    out
}

/// document rendered independently of the order of its top-level fields
pub fn rsorted(d: &Document) -> String {
    let mut v: Vec<String> = d.iter().map(|(k, v)| format!("{k:?}: {}", rval(v))).collect();
    v.sort();
    format!("{{{}}}", v.join(", "))
}

pub type State = BTreeMap<String, BTreeMap<String, String>>;
pub fn mstate(db: &MDb) -> State { db.colls.iter().map(|(c, m)| (c.clone(), m.docs.iter().map(|(k, d)| (k.clone(), rsorted(d))).collect())).collect() }

#[derive(Clone, Debug, PartialEq)]
pub enum Resp { Insert(Vec<Bson>), Update(u64, u64), Delete(u64), Unit }

/// Where operations are sent.
pub struct Target<'a> { pub db: &'a Database, pub txn: Option<&'a Transaction>, pub prefix: String }
impl<'a> Target<'a> {
    pub fn name(&self, c: &str) -> String { format!("{}{c}", self.prefix) }
    pub fn coll(&self, c: &str) -> Coll<'static> { match self.txn { Some(t) => Coll::txn(t, &self.name(c)), None => Coll::auto(self.db, &self.name(c)) } }
    pub fn exec(&self, op: &Op) -> Out<Resp> {
        match op {
            Op::Ins(c, d) => self.coll(c).insert(d).map(|i| Resp::Insert(vec![i])),
            Op::InsMany(c, d) => self.coll(c).insert_many(d).map(|v| Resp::Insert(v.into_iter().map(|x| x.1).collect())),
            Op::Upd { c, many, q, u } => self.coll(c).update(*many, q, u, false).map(|(a, b)| Resp::Update(a, b)),
            Op::Del { c, many, q } => self.coll(c).delete(*many, q).map(Resp::Delete),
            Op::Upsert { c, id, u } => self.coll(c).update(false, &bson::doc! {"_id": id.clone()}, u, true).map(|(a, b)| Resp::Update(a, b)),
            Op::Idx { c, field, name, unique } => self.coll(c).create_index(field, *name, *unique).map(|_| Resp::Unit),
            Op::DropIdx(c, n) => self.coll(c).drop_index(n).map(|_| Resp::Unit),
            Op::DropColl(c) => self.coll(c).drop_coll().map(|_| Resp::Unit),
            Op::CreateColl(c) => call(|| self.db.create_collection(&self.name(c))).map(|_| Resp::Unit),
            Op::Reopen => Out::Ok(Resp::Unit),
        }
    }
    /// contents of the collections of the alphabet
    pub fn state(&self, colls: &[&str]) -> Result<State, String> {
        let mut s = State::new();
        for c in colls {
            match self.coll(c).all() {
                Out::Ok(v) => {
                    let mut m = BTreeMap::new();
                    for d in &v {
                        let k = idkey(d.get("_id").ok_or("document without _id")?);
                        if m.insert(k, rsorted(d)).is_some() { return Err("find({}) returns a document twice".into()); }
                    }
                    if !m.is_empty() { s.insert(c.to_string(), m); }
                }
                x => return Err(format!("find({{}}) failed: {x:?}")),
            }
        }
        Ok(s)
    }
}

pub fn nonempty(s: State) -> State { s.into_iter().filter(|(_, m)| !m.is_empty()).collect() }

/// does the answer agree with the expectation?
pub fn agrees(e: &Expect, got: &Out<Resp>) -> bool {
    match (e, got) {
        (_, Out::Panic(_)) => false,
        (Expect::Rejected(_), Out::Err(_)) => true,
        (Expect::Accepted, Out::Ok(_)) => true,
        (Expect::Unit, Out::Ok(Resp::Unit)) => true,
        (Expect::Insert(a), Out::Ok(Resp::Insert(b))) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| rval(x) == rval(y)),
        (Expect::Update { matched, changed }, Out::Ok(Resp::Update(m, n))) => matched == m && n <= m && n >= changed,
        (Expect::Delete(n), Out::Ok(Resp::Delete(m))) => n == m,
        _ => false,
    }
}

/// Execute one operation and compare; returns the model state to continue from.
pub fn step(t: &Target, m: &MDb, op: &Op, colls: &[&str]) -> Result<MDb, serde_json::Value> {
    let alts = model_step(m, op);
    let got = t.exec(op);
    let fits: Vec<&(MDb, Expect)> = alts.iter().filter(|(_, e)| agrees(e, &got)).collect();
    if fits.is_empty() {
        return Err(serde_json::json!({"operation": op.text(), "expected": format!("{:?}", alts.iter().map(|a| a.1.clone()).collect::<Vec<_>>()), "got": format!("{got:?}")}));
    }
    let st = match t.state(colls) { Ok(s) => s, Err(e) => return Err(serde_json::json!({"operation": op.text(), "problem": e})) };
    for (n, _) in &fits { if nonempty(mstate(n)) == st { return Ok(n.clone()); } }
    Err(serde_json::json!({"operation": op.text(), "answer": format!("{got:?}"), "expected_contents": format!("{:?}", nonempty(mstate(&fits[0].0))), "got_contents": format!("{st:?}")}))
}

/// index lookups, counts and uniqueness agree with the documents
pub fn probe(t: &Target, m: &MDb, colls: &[&str], fields: &[(&str, Vec<Bson>)]) -> Result<(), serde_json::Value> {
    for c in colls {
        let col = t.coll(c);
        let empty = MColl::default();
        let mc = m.colls.get(*c).unwrap_or(&empty);
        match col.count() { Out::Ok(n) if n == mc.docs.len() as u64 => {}, x => return Err(serde_json::json!({"collection": c, "count_documents": format!("{x:?}"), "expected": mc.docs.len()})) }
        for (f, vals) in fields {
            for v in vals {
                let q = bson::doc! {*f: v.clone()};
                let want: BTreeSet<String> = mc.matching(&q).unwrap().into_iter().collect();
                match col.find(&q) {
                    Out::Ok(ds) => match set_key(&ds) {
                        Ok(g) if g == want && ds.iter().all(|d| rsorted(d) == rsorted(&mc.docs[&idkey(d.get("_id").unwrap())])) => {}
                        x => return Err(serde_json::json!({"lookup": format!("{c}.find({q})"), "got": format!("{x:?}"), "expected": format!("{want:?}")})),
                    },
                    x => return Err(serde_json::json!({"lookup": format!("{c}.find({q})"), "got": format!("{x:?}"), "expected": format!("{want:?}")})),
                }
            }
        }
    }
    Ok(())
}

/// Enumerate all sequences of exactly `depth` operations of the alphabet, in index order.
pub fn sequences(n: usize, depth: usize, mut f: impl FnMut(&[usize])) {
    let mut v = vec![0; depth];
    loop {
        f(&v);
        let mut i = depth;
        loop {
            if i == 0 { return; }
            i -= 1;
            v[i] += 1;
            if v[i] < n { break; }
            v[i] = 0;
        }
    }
}
