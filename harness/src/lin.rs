//! Is a concurrent history explained by some order of its statements and commits?
use crate::model::*;
use crate::seq::*;
use crate::util::*;
use bson::{doc, Bson, Document};
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// what a thread does, in order
#[derive(Clone, Debug)]
pub enum Item { Op(Op), Read(Rd), Begin, Commit, Rollback, Drop }
#[derive(Clone, Debug)]
pub enum Rd { Find(&'static str, Document), Count(&'static str), Agg(&'static str, Vec<Document>), Sorted(&'static str, Document), Names }
impl Item {
    pub fn text(&self) -> String {
        match self {
            Item::Op(o) => o.text(),
            Item::Read(Rd::Find(c, q)) => format!("{c}.find({q})"),
            Item::Read(Rd::Count(c)) => format!("{c}.count_documents()"),
            Item::Read(Rd::Agg(c, p)) => format!("{c}.aggregate([{}])", p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")),
            Item::Read(Rd::Sorted(c, s)) => format!("{c}.find({{}}).sort({s})"),
            Item::Read(Rd::Names) => "list_collection_names()".into(),
            x => format!("{x:?}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ans { Done(Out<Resp>), Docs(Out<Vec<String>>), Count(Out<u64>), Names(Out<Vec<String>>) }
/// one executed item
#[derive(Clone, Debug)]
pub struct Ev { pub thread: usize, /// whose transaction, if it has one
    pub tx: usize, pub item: Item, pub ans: Ans, pub from: u64, pub to: u64, pub timed_out: bool }

pub struct Spec {
    /// a rejected insertion or upsert may also be answered with an error when it lost a race
    pub upsert_may_fail: bool,
}

#[derive(Clone)]
struct St { com: MDb, tx: BTreeMap<usize, TxB>, /// documents a statement in progress has found
    sel: BTreeMap<usize, BTreeSet<String>> }
#[derive(Clone, Default)]
struct TxB { view_writes: BTreeMap<(String, String), Option<Document>>, values: BTreeSet<(String, String, String)>, ddl: bool }

fn overlay(com: &MDb, t: Option<&TxB>) -> MDb {
    let mut m = com.clone();
    if let Some(t) = t { for ((c, k), d) in &t.view_writes { let mc = m.colls.entry(c.clone()).or_default(); match d { Some(d) => { mc.docs.insert(k.clone(), d.clone()); } None => { mc.docs.remove(k); } } } }
    m
}
fn diff(a: &MDb, b: &MDb) -> BTreeMap<(String, String), Option<Document>> {
    let mut out = BTreeMap::new();
    let e = MColl::default();
    for c in a.colls.keys().chain(b.colls.keys()) {
        let (x, y) = (a.colls.get(c).unwrap_or(&e), b.colls.get(c).unwrap_or(&e));
        for (k, d) in &y.docs { if x.docs.get(k).map(rdoc) != Some(rdoc(d)) { out.insert((c.clone(), k.clone()), Some(d.clone())); } }
        for k in x.docs.keys() { if !y.docs.contains_key(k) { out.insert((c.clone(), k.clone()), None); } }
    }
    out
}
fn ddl_shape(m: &MDb) -> Vec<(String, Vec<String>)> { m.colls.iter().map(|(c, x)| (c.clone(), x.indexes.keys().cloned().collect())).collect() }

pub struct Problem { pub reached: usize }

/// Search for an explaining order; `fin` = contents at the end.
pub fn explained(base: &MDb, evs: &[Ev], spec: &Spec, fin: &State, names: Option<&Vec<String>>) -> bool {
    let n = evs.len();
    let mut seen: HashSet<(u64, u64)> = HashSet::new();
    let mut stack: Vec<(u64, St)> = vec![(0, St { com: base.clone(), tx: BTreeMap::new(), sel: BTreeMap::new() })];
    while let Some((mask, st)) = stack.pop() {
        if mask & ((1 << n) - 1) == (1 << n) - 1 {
            if nonempty(mstate(&st.com)) == *fin && names.map_or(true, |v| *v == st.com.colls.keys().cloned().collect::<Vec<_>>()) { return true; }
            continue;
        }
        let sig = crate::rec::h64(&(format!("{:?}", mstate(&st.com)), ddl_shape(&st.com), st.tx.iter().map(|(k, t)| format!("{k}{:?}", t.view_writes)).collect::<Vec<_>>(), format!("{:?}", st.sel)));
        if !seen.insert((mask, sig)) { continue; }
        for i in 0..n {
            if mask >> i & 1 == 1 { continue; }
            // everything which had returned before this began comes first
            if (0..n).any(|j| mask >> j & 1 == 0 && j != i && (evs[j].to < evs[i].from || (evs[j].thread == evs[i].thread && evs[j].from < evs[i].from))) { continue; }
            for s in successors(&st, &evs[i], i, spec) { stack.push((mask | 1 << i, s)); }
            if let Some((c, q)) = selects(&evs[i].item) {
                if mask >> (i + n) & 1 == 0 {
                    let view = overlay(&st.com, st.tx.get(&evs[i].tx));
                    if let Some(Ok(ks)) = view.colls.get(c).map(|m| m.matching(q)) {
                        let mut s = st.clone();
                        s.sel.insert(i, ks.iter().map(|k| k.to_string()).collect());
                        stack.push((mask | 1 << (i + n), s));
                    }
                }
            }
        }
    }
    false
}

fn values(view: &MDb, c: &str, d: &Document) -> Vec<(String, String, String)> {
    let Some(m) = view.colls.get(c) else { return vec![] };
    m.indexes.values().filter(|x| x.unique).filter_map(|x| get_path(d, &x.field).map(|v| (c.to_string(), x.field.clone(), rval(v)))).collect()
}
fn get_path<'a>(d: &'a Document, p: &str) -> Option<&'a Bson> { let mut it = p.split('.'); let mut v = d.get(it.next()?)?; for k in it { v = v.as_document()?.get(k)?; } Some(v) }

fn successors(st: &St, e: &Ev, i: usize, spec: &Spec) -> Vec<St> {
    let t = e.tx;
    let own = st.tx.get(&t);
    let view = overlay(&st.com, own);
    match &e.item {
        Item::Begin => { let mut s = st.clone(); s.tx.insert(t, TxB::default()); vec![s] }
        Item::Rollback | Item::Drop => { let mut s = st.clone(); s.tx.remove(&t); if matches!(e.ans, Ans::Done(Out::Ok(_))) { vec![s] } else { vec![] } }
        Item::Commit => {
            if !matches!(e.ans, Ans::Done(Out::Ok(_))) { return vec![]; }
            let mut s = st.clone();
            if let Some(b) = s.tx.remove(&t) { s.com = overlay(&s.com, Some(&b)); }
            vec![s]
        }
        Item::Read(r) => {
            let ok = match (r, &e.ans) {
                (Rd::Find(c, q), Ans::Docs(Out::Ok(got))) => {
                    let mut want: Vec<String> = match view.colls.get(*c) { None => vec![], Some(m) => match m.matching(q) { Ok(ks) => ks.iter().map(|k| rsorted(&m.docs[k])).collect(), Err(_) => return vec![] } };
                    want.sort();
                    let mut got = got.clone(); got.sort();
                    got == want
                }
                (Rd::Sorted(c, s), Ans::Docs(Out::Ok(got))) => {
                    let f = s.keys().next().unwrap();
                    let mut ds: Vec<&Document> = view.colls.get(*c).map(|m| m.docs.values().collect()).unwrap_or_default();
                    ds.sort_by_key(|d| d.get_i32(f).unwrap_or(i32::MAX));
                    *got == ds.iter().map(|d| rsorted(d)).collect::<Vec<_>>()
                }
                (Rd::Count(c), Ans::Count(Out::Ok(n))) => *n == view.colls.get(*c).map_or(0, |m| m.docs.len() as u64),
                (Rd::Agg(c, p), Ans::Docs(Out::Ok(got))) => {
                    // pipelines used here: $match then $group by null with a count, or $count
                    let m = view.colls.get(*c);
                    let q = p[0].get_document("$match").cloned().unwrap_or_default();
                    let k = m.map_or(0, |m| m.matching(&q).map(|x| x.len()).unwrap_or(0));
                    *got == vec![k.to_string()] || (k == 0 && got.is_empty())
                }
                (Rd::Names, Ans::Names(Out::Ok(v))) => *v == view.colls.keys().cloned().collect::<Vec<_>>(),
                (_, Ans::Docs(Out::Err(_))) | (_, Ans::Count(Out::Err(_))) | (_, Ans::Names(Out::Err(_))) => e.timed_out,
                _ => false,
            };
            if ok { vec![st.clone()] } else { vec![] }
        }
        Item::Op(op) => {
            let Ans::Done(got) = &e.ans else { return vec![] };
            if got.is_panic() { return vec![]; }
            let mut out = vec![];
            if got.is_err() && (e.timed_out || (spec.upsert_may_fail && matches!(op, Op::Upsert { .. }))) { out.push(st.clone()); }
            let chosen = st.sel.get(&i).and_then(|ks| restrict(&view, op, ks));
            for (n, exp) in model_step(&view, chosen.as_ref().unwrap_or(op)) {
                if !agrees(&exp, got) { continue; }
                if got.is_err() { out.push(st.clone()); continue; }
                let d = diff(&view, &n);
                let ddl = ddl_shape(&view) != ddl_shape(&n);
                // a write needs its documents and unique values to itself until the end of the transaction
                let mut vals = BTreeSet::new();
                for ((c, k), new) in &d {
                    for old in view.colls.get(c).and_then(|m| m.docs.get(k)).into_iter().chain(new.iter()) { vals.extend(values(&view, c, old)); }
                }
                let clash = st.tx.iter().any(|(o, b)| *o != t && (d.keys().any(|k| b.view_writes.contains_key(k)) || vals.iter().any(|v| b.values.contains(v)) || (ddl && !b.view_writes.is_empty() && !only_creates(&view, &n)) || b.ddl));
                if clash { continue; }
                let mut s = st.clone();
                match s.tx.get_mut(&t) {
                    Some(b) => { b.view_writes.extend(d); b.values.extend(vals); b.ddl |= ddl && !only_creates(&view, &n); if ddl { for c in n.colls.keys() { if !s.com.colls.contains_key(c) { /* created with the commit */ } } } }
                    None => s.com = n,
                }
                out.push(s);
            }
            out
        }
    }
}
/// A statement which changes the documents matching a filter looks for them in a snapshot, then
/// changes those which still match; documents which came to match meanwhile may be left alone.
fn selects(i: &Item) -> Option<(&'static str, &Document)> {
    match i {
        Item::Op(Op::Upd { c, q, .. }) | Item::Op(Op::Del { c, q, .. }) if q.len() != 1 || !q.contains_key("_id") => Some((c, q)),
        _ => None,
    }
}
fn restrict(view: &MDb, op: &Op, ks: &BTreeSet<String>) -> Option<Op> {
    let (c, q) = selects_op(op)?;
    let m = view.colls.get(c)?;
    let ids: Vec<Bson> = m.docs.iter().filter(|(k, _)| ks.contains(&k.to_string())).map(|(_, d)| d.get("_id").unwrap().clone()).collect();
    let q2 = if q.is_empty() { doc! {"_id": {"$in": ids}} } else { doc! {"$and": [q.clone(), {"_id": {"$in": ids}}]} };
    Some(match op { Op::Upd { c, many, u, .. } => Op::Upd { c, many: *many, q: q2, u: u.clone() }, Op::Del { c, many, .. } => Op::Del { c, many: *many, q: q2 }, _ => return None })
}
fn selects_op(op: &Op) -> Option<(&'static str, &Document)> { match op { Op::Upd { c, q, .. } | Op::Del { c, q, .. } => Some((c, q)), _ => None } }

/// the only change of definitions is a new empty-index collection
fn only_creates(a: &MDb, b: &MDb) -> bool { a.colls.iter().all(|(c, m)| b.colls.get(c).map_or(false, |n| n.indexes.keys().eq(m.indexes.keys()))) }
