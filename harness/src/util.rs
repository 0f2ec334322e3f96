//! Driving the real database.
use crate::model::idkey;
use bson::{Bson, Document};
use polodb_core::options::UpdateOptions;
use polodb_core::{ClientCursor, Collection, CollectionT, Database, TransactionalCollection};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

/// Outcome of one call into the code under test.
#[derive(Clone, Debug, PartialEq)]
pub enum Out<T> { Ok(T), Err(String), Panic(String) }
impl<T> Out<T> {
    pub fn is_ok(&self) -> bool { matches!(self, Out::Ok(_)) }
    pub fn is_err(&self) -> bool { matches!(self, Out::Err(_)) }
    pub fn is_panic(&self) -> bool { matches!(self, Out::Panic(_)) }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self { Out::Ok(t) => Out::Ok(f(t)), Out::Err(e) => Out::Err(e), Out::Panic(e) => Out::Panic(e) }
    }
    pub fn ok(self) -> Option<T> { if let Out::Ok(t) = self { Some(t) } else { None } }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VX_LOUD").is_ok() { eprintln!("panic: {i}"); }
    }));
}

pub fn call<T>(f: impl FnOnce() -> polodb_core::Result<T>) -> Out<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => { let s = e.to_string(); Out::Err(s.split("backtrace").next().unwrap().chars().take(300).collect()) }
        Err(p) => Out::Panic(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())),
    }
}

static SEQ: AtomicU64 = AtomicU64::new(0);
pub fn fresh_path(scratch: &PathBuf) -> PathBuf { scratch.join(format!("db{}", SEQ.fetch_add(1, Ordering::SeqCst))) }
pub fn fresh_name(p: &str) -> String { format!("{p}{}", SEQ.fetch_add(1, Ordering::SeqCst)) }

pub fn open(p: &PathBuf) -> Database { Database::open_path(p).expect("open") }

/// A database opened in a scratch directory, removed on drop.
pub struct Scratch { pub path: PathBuf, pub db: Option<Database> }
impl Scratch {
    pub fn new(root: &PathBuf) -> Scratch { let path = fresh_path(root); let db = open(&path); Scratch { path, db: Some(db) } }
    /// with a live entry before all others, so that the first seek of every cursor does not walk what earlier cases have deleted
    pub fn with_sentinel(root: &PathBuf) -> Scratch { let s = Scratch::new(root); let _ = Coll::auto(s.db(), "!").insert(&bson::doc! {"_id": 0}); s }
    pub fn db(&self) -> &Database { self.db.as_ref().unwrap() }
    pub fn reopen(&mut self) { self.db = None; self.db = Some(open(&self.path)); }
}
impl Drop for Scratch { fn drop(&mut self) { self.db = None; let _ = std::fs::remove_dir_all(&self.path); } }

pub fn drain(c: ClientCursor<Document>) -> polodb_core::Result<Vec<Document>> {
    let mut v = vec![];
    for d in c { v.push(d?); if v.len() > 100_000 { panic!("endless cursor"); } }
    Ok(v)
}

/// Plain collection and transactional collection behind one interface.
pub enum Coll<'a> { Auto(Collection<Document>), Txn(TransactionalCollection<Document>, std::marker::PhantomData<&'a ()>) }
macro_rules! on { ($s:expr, $c:ident => $e:expr) => { match $s { Coll::Auto($c) => $e, Coll::Txn($c, _) => $e } } }
impl<'a> Coll<'a> {
    pub fn auto(db: &Database, n: &str) -> Coll<'static> { Coll::Auto(db.collection::<Document>(n)) }
    pub fn txn(t: &polodb_core::Transaction, n: &str) -> Coll<'static> { Coll::Txn(t.collection::<Document>(n), std::marker::PhantomData) }
    pub fn find(&self, q: &Document) -> Out<Vec<Document>> { call(|| on!(self, c => drain(c.find(q.clone()).run()?))) }
    pub fn find_one(&self, q: &Document) -> Out<Option<Document>> { call(|| on!(self, c => c.find_one(q.clone()))) }
    pub fn all(&self) -> Out<Vec<Document>> { self.find(&Document::new()) }
    pub fn insert(&self, d: &Document) -> Out<Bson> { call(|| on!(self, c => c.insert_one(d.clone()))).map(|r| r.inserted_id) }
    pub fn insert_many(&self, d: &[Document]) -> Out<Vec<(usize, Bson)>> {
        call(|| on!(self, c => c.insert_many(d.iter().cloned()))).map(|r| { let mut v: Vec<_> = r.inserted_ids.into_iter().collect(); v.sort_by_key(|x| x.0); v })
    }
    pub fn update(&self, many: bool, q: &Document, u: &Document, upsert: bool) -> Out<(u64, u64)> {
        let (q, u) = (q.clone(), u.clone());
        let r = match (many, upsert) {
            (false, false) => call(|| on!(self, c => c.update_one(q, u))),
            (true, false) => call(|| on!(self, c => c.update_many(q, u))),
            (false, true) => call(|| on!(self, c => c.update_one_with_options(q, u, UpdateOptions::builder().upsert(true).build()))),
            (true, true) => call(|| on!(self, c => c.update_many_with_options(q, u, UpdateOptions::builder().upsert(true).build()))),
        };
        r.map(|r| (r.matched_count, r.modified_count))
    }
    pub fn delete(&self, many: bool, q: &Document) -> Out<u64> {
        let q = q.clone();
        if many { call(|| on!(self, c => c.delete_many(q))) } else { call(|| on!(self, c => c.delete_one(q))) }.map(|r| r.deleted_count)
    }
    pub fn count(&self) -> Out<u64> { call(|| on!(self, c => c.count_documents())) }
    pub fn aggregate(&self, p: &[Document]) -> Out<Vec<Document>> { call(|| on!(self, c => drain(c.aggregate(p.iter().cloned()).run()?))) }
    pub fn find_opts(&self, q: &Document, sort: Option<&Document>, skip: Option<u64>, limit: Option<u64>) -> Out<Vec<Document>> {
        call(|| on!(self, c => {
            let mut f = c.find(q.clone());
            if let Some(s) = sort { f = f.sort(s.clone()); }
            if let Some(s) = skip { f = f.skip(s); }
            if let Some(s) = limit { f = f.limit(s); }
            drain(f.run()?)
        }))
    }
    pub fn create_index(&self, field: &str, name: Option<&str>, unique: bool) -> Out<()> {
        let m = polodb_core::IndexModel { keys: bson::doc! { field: 1 }, options: Some(polodb_core::IndexOptions { name: name.map(|s| s.to_string()), unique: Some(unique) }) };
        call(|| on!(self, c => c.create_index(m)))
    }
    pub fn drop_index(&self, n: &str) -> Out<()> { call(|| on!(self, c => c.drop_index(n))) }
    pub fn drop_coll(&self) -> Out<()> { call(|| on!(self, c => c.drop())) }
}

/// A set of documents keyed by identity of `_id`; documents rendered exactly (types, bits, order).
pub fn render_set(ds: &[Document]) -> Result<BTreeMap<String, String>, String> {
    let mut m = BTreeMap::new();
    for d in ds {
        let k = idkey(d.get("_id").ok_or("document without _id")?);
        if m.insert(k.clone(), rdoc(d)).is_some() { return Err(format!("the document with _id {k} is returned twice")); }
    }
    Ok(m)
}
/// bit-exact textual form
pub fn rval(b: &Bson) -> String {
    match b {
        Bson::Double(d) => format!("Double({:?}/{:x})", d, d.to_bits()),
        Bson::Document(d) => rdoc(d),
        Bson::Array(a) => format!("[{}]", a.iter().map(rval).collect::<Vec<_>>().join(", ")),
        Bson::JavaScriptCodeWithScope(c) => format!("JsScope({:?},{})", c.code, rdoc(&c.scope)),
        x => format!("{x:?}"),
    }
}
pub fn rdoc(d: &Document) -> String { format!("{{{}}}", d.iter().map(|(k, v)| format!("{k:?}: {}", rval(v))).collect::<Vec<_>>().join(", ")) }
pub fn set_key(ds: &[Document]) -> Result<std::collections::BTreeSet<String>, String> {
    let mut m = std::collections::BTreeSet::new();
    for d in ds {
        let k = idkey(d.get("_id").ok_or("document without _id")?);
        if !m.insert(k.clone()) { return Err(format!("the document with _id {k} is returned twice")); }
    }
    Ok(m)
}
