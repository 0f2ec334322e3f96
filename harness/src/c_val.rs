//! Values, identifiers, cursors, hostile inputs.
use crate::c_ops::must;
use crate::c_query::load;
use crate::gen::*;
use crate::model::*;
use crate::rec::*;
use crate::util::*;
use bson::{doc, spec::BinarySubtype, Binary, Bson, DateTime, Document, Timestamp};
use polodb_core::options::UpdateOptions;
use polodb_core::{ClientCursor, CollectionT, IndexModel, IndexOptions};
use std::path::PathBuf;
use serde_json::{json, Value};
use std::collections::BTreeSet;

fn def(id: &'static str, rule: &'static str, run: fn(&mut Rec)) -> CheckDef {
    CheckDef { id, level: "exploration", rule, assumptions: &[], run, preload: None, workers: 8, hang_s: 60 }
}
pub fn register(v: &mut Vec<CheckDef>) {
    v.push(def("P22", "distinct documents", values));
    v.push(def("P23", "distinct pairs of identifiers", identifiers));
    v.push(def("P24", "distinct (kind of cursor, position, event)", |r| { cursors(r); crate::c_scale::cursors(r); }));
    v.push(def("P25", "distinct calls", |r| { hostile(r); crate::c_scale::repeated(r); }));
}

fn all_values() -> Vec<Bson> {
    let mut v = scalars();
    v.extend(exotics());
    v.extend(uncommon());
    v.extend(regexes());
    for s in [BinarySubtype::Function, BinarySubtype::UuidOld, BinarySubtype::Uuid, BinarySubtype::Md5, BinarySubtype::Encrypted, BinarySubtype::UserDefined(0x80), BinarySubtype::UserDefined(0xff)] { v.push(Bson::Binary(Binary { subtype: s, bytes: vec![7; 16] })); }
    v.extend([Bson::Double(f64::from_bits(0x7ff8_0000_0000_1234)), Bson::Double(f64::from_bits(0xfff8_0000_0000_0001)), Bson::Double(f64::MIN_POSITIVE), Bson::Double(f64::from_bits(1)), Bson::Double(f64::MAX)]);
    v.extend([Bson::DateTime(DateTime::from_millis(i64::MAX)), Bson::DateTime(DateTime::from_millis(i64::MIN)), Bson::DateTime(DateTime::from_millis(253402300800000)), Bson::Timestamp(Timestamp { time: u32::MAX, increment: u32::MAX }), Bson::Timestamp(Timestamp { time: 0, increment: 0 })]);
    v.extend([Bson::String("\u{0}".into()), Bson::String("a\u{0}b".into()), Bson::String("\u{10ffff}".into()), Bson::String("\u{200d}e\u{301}".into()), Bson::String("$a".into()), Bson::Symbol("".into())]);
    v.extend([Bson::Decimal128(bson::Decimal128::from_bytes([0; 16])), Bson::Decimal128("NaN".parse().unwrap()), Bson::Decimal128("-Infinity".parse().unwrap()), Bson::Decimal128("-0.10E-30".parse().unwrap()), Bson::Decimal128("9999999999999999999999999999999999E6111".parse().unwrap()), re("a|b", "imsx"), re("\\d+\\.", "")]);
    v.extend([Bson::JavaScriptCodeWithScope(bson::JavaScriptCodeWithScope { code: "".into(), scope: doc! {} }), Bson::JavaScriptCode("".into())]);
    v
}

/// Every way to store and to read one document.
fn round_trip(s: &Scratch, name: &str, d: &Document, n: usize) -> Result<(), Value> {
    let c = Coll::auto(s.db(), name);
    let id = doc! {"_id": d.get("_id").unwrap().clone()};
    let way = n % 4;
    match way {
        0 => { let r = c.insert(d); if !r.is_ok() { return Err(json!({"insert_one": format!("{r:?}")})); } }
        1 => { let r = c.insert_many(&[doc! {"_id": "other"}, d.clone()]); if !r.is_ok() { return Err(json!({"insert_many": format!("{r:?}")})); } let _ = c.delete(false, &doc! {"_id": "other"}); }
        2 => { let mut rest = d.clone(); rest.remove("_id"); let _ = c.insert(&id); let r = c.update(false, &id, &doc! {"$set": rest}, false); if !r.is_ok() { return Err(json!({"update_one": format!("{r:?}")})); } }
        _ => { let t = s.db().start_transaction().unwrap(); let r = Coll::txn(&t, name).insert(d); let k = Coll::txn(&t, name).find_one(&id); let c = call(|| t.commit()); if !r.is_ok() || !c.is_ok() { return Err(json!({"insert in a transaction": format!("{r:?} {c:?}")})); } same("read in the transaction", k, d)?; }
    }
    same("find_one", c.find_one(&id), d)?;
    same("find", c.find(&doc! {}).map(|v| v.into_iter().find(|x| x.get("_id") == d.get("_id"))), d)?;
    same("aggregate", c.aggregate(&[doc! {"$match": id.clone()}, doc! {"$skip": 0}]).map(|v| v.into_iter().next()), d)?;
    same("sorted find", c.find_opts(&id, Some(&doc! {"v": 1}), None, Some(1)).map(|v| v.into_iter().next()), d)?;
    // an update of another field leaves it alone
    let r = c.update(false, &id, &doc! {"$set": {"zz": 1}}, false);
    let mut e = d.clone();
    e.insert("zz", 1);
    if !r.is_ok() { return Err(json!({"update of another field": format!("{r:?}")})); }
    same("after an update of another field", c.find_one(&id), &e)?;
    let r = c.update(false, &id, &doc! {"$unset": {"zz": 1}}, false);
    if !r.is_ok() { return Err(json!({"update of another field": format!("{r:?}")})); }
    same("after two updates of another field", c.find_one(&id), d)?;
    Ok(())
}
fn same(what: &str, got: Out<Option<Document>>, want: &Document) -> Result<(), Value> {
    match got { Out::Ok(Some(g)) if rdoc(&g) == rdoc(want) => Ok(()), x => Err(json!({"read": what, "got": short(&format!("{:?}", x.map(|d| d.map(|d| rdoc(&d))))), "stored": short(&rdoc(want))})) }
}
fn short(s: &str) -> String { s.chars().take(400).collect() }

fn values(rec: &mut Rec) {
    quiet_panics();
    let vals = all_values();
    let mut s = Scratch::new(&rec.scratch);
    let mut docs: Vec<Document> = vec![];
    let mut id = 0;
    let mut push = |d: Document| { let mut e = doc! {"_id": id}; id += 1; e.extend(d); docs.push(e); };
    for v in &vals {
        for k in 0..4 { let _ = k; push(doc! {"v": v.clone()}); }
        push(doc! {"n": {"v": v.clone(), "w": 1}, "l": [v.clone(), [v.clone(), {"x": v.clone()}]]});
        push(doc! {"l": [{"x": [v.clone()]}], "k": {"k": {"k": v.clone()}}, "v": 1});
    }
    for (i, v) in vals.iter().enumerate() { for (j, w) in vals.iter().enumerate() { if rec.quick() && (i + j) % 3 != 0 { continue; } push(doc! {"v": v.clone(), "a": w.clone(), "m": {"b": w.clone(), "a": v.clone()}}); } }
    // field names and orders
    let keys = ["", " ", "a.b", "$x", "é", "0", "A", "a", "\u{1}", "_ID", "id", "\"", "\\", "\n", &"k".repeat(1000)];
    for k in keys { push(doc! {k: 1, "v": {k: [k]}}); }
    for x in 0..4 { for y in 0..4 { for z in 0..4 { if x != y && y != z && x != z { let n = ["z", "a", "_z", "10"]; push(doc! {n[x]: 1, n[y]: 2, n[z]: {n[z]: 1, n[x]: 2, n[y]: 3}}); } } } }
    // sizes
    let mut sizes = vec![1usize, 2, 127, 128, 255, 256, 4095, 4096, 32767, 65535, 65536, 1 << 20, 1 << 22];
    if rec.thorough() { sizes.extend((1..64).map(|i| i * 1021)); sizes.push(15 << 20); }
    for n in sizes { push(doc! {"v": "x".repeat(n)}); push(doc! {"v": bin(&vec![0u8; n])}); }
    for n in [10usize, 1000, 5000] { push((0..n).map(|i| (format!("f{i}"), Bson::Int32(i as i32))).collect()); push(doc! {"v": (0..n).map(|i| Bson::Int64(i as i64)).collect::<Vec<_>>()}); }
    for depth in [1usize, 10, 50, 90] { let mut v = Bson::Int32(1); for i in 0..depth { v = if i % 2 == 0 { Bson::Document(doc! {"d": v}) } else { Bson::Array(vec![v]) }; } push(doc! {"v": v}); }
    let mut kept: Vec<Document> = vec![];
    for (n, d) in docs.iter().enumerate() {
        if !rec.next() { continue; }
        rec.begin(|| short(&rdoc(d)));
        rec.eval(Some(h64(&rdoc(d))));
        if let Err(mut e) = round_trip(&s, "values", d, n) { e["document"] = json!(short(&rdoc(d))); rec.viol(format!("value {} {}", n % 4, short(&rdoc(d))), e); }
        kept.push(d.clone());
        if kept.len() >= 200 { reopen_check(rec, &mut s, &mut kept); }
    }
    reopen_check(rec, &mut s, &mut kept);
    // indexable values through an index
    for v in vals.iter().filter(|v| indexable(v)) {
        if !rec.next() { continue; }
        rec.begin(|| format!("indexed {}", rval(v)));
        rec.eval(Some(h64(&("indexed", rval(v)))));
        let c = Coll::auto(s.db(), &fresh_name("ix"));
        must(c.create_index("v", None, true));
        let d = doc! {"_id": 1, "v": v.clone(), "l": [v.clone()]};
        let r = c.insert(&d);
        let f = c.find(&doc! {"v": v.clone()});
        let g = c.all();
        let good = r.is_ok() && [f.clone(), g].iter().all(|f| matches!(f, Out::Ok(x) if x.len() == 1 && rdoc(&x[0]) == rdoc(&d)));
        // a pattern is a condition, not a value; a NaN and a code compare with nothing
        if !good && !matches!(v, Bson::RegularExpression(_)) && comparable(v, v) { rec.viol(format!("indexed {}", rval(v)), json!({"insert": format!("{r:?}"), "found": format!("{f:?}")})); }
    }
}
fn reopen_check(rec: &mut Rec, s: &mut Scratch, kept: &mut Vec<Document>) {
    s.reopen();
    let c = Coll::auto(s.db(), "values");
    for d in kept.drain(..) {
        if let Err(e) = same("after reopening", c.find_one(&doc! {"_id": d.get("_id").unwrap().clone()}), &d) { rec.viol(format!("reopened {}", short(&rdoc(&d))), e); }
    }
    must(c.delete(true, &doc! {}));
}

// ---------------------------------------------------------------- P23

pub fn id_values() -> Vec<Bson> {
    let mut v: Vec<Bson> = scalars().into_iter().filter(|v| !matches!(v, Bson::Null)).collect();
    v.extend(exotics().into_iter().filter(indexable));
    for s in ["\u{0}", "\u{0}\u{0}", "a\u{0}", "a\u{0}b", "a\u{0}\u{2}", "a\u{1}", "\u{c0}", "a\u{c0}\u{80}", "aa", "ba", "\u{ff}", "\u{7f}"] { v.push(Bson::String(s.into())); }
    for i in [255i32, 256, 65536, -256, 0x61, 0x0261_0000] { v.push(Bson::Int32(i)); v.push(Bson::Int64(i as i64)); v.push(Bson::Int64((i as i64) << 32)); v.push(Bson::Double(i as f64)); }
    v.push(Bson::DateTime(DateTime::from_millis(i64::MAX)));
    v.push(Bson::Decimal128(bson::Decimal128::from_bytes([1; 16])));
    v.push(Bson::Decimal128(bson::Decimal128::from_bytes([2; 16])));
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(idkey(x)));
    v
}

fn identifiers(rec: &mut Rec) {
    quiet_panics();
    let ids = id_values();
    let mut s = Scratch::new(&rec.scratch);
    let mut n = 0;
    for (i, x) in ids.iter().enumerate() { for (j, y) in ids.iter().enumerate() { for txn in [false, true] {
        if j < i || (txn && rec.quick() && (i + j) % 4 != 0) { continue; }
        if !rec.next() { continue; }
        rec.begin(|| format!("{} {} txn={txn}", rval(x), rval(y)));
        rec.eval(Some(h64(&(rval(x), rval(y), txn))));
        n += 1;
        if n % 200 == 0 { s = Scratch::new(&rec.scratch); }
        let name = format!("i{n}");
        // the second half of the cases reach the documents through an index as well, which stores the identifiers split
        let ix = n % 2 == 0 || i == j;
        if ix { must(Coll::auto(s.db(), &name).create_index("n", None, false)); }
        let t = if txn { Some(s.db().start_transaction().unwrap()) } else { None };
        let c = match &t { Some(t) => Coll::txn(t, &name), None => Coll::auto(s.db(), &name) };
        let r = id_pair(&c, x, y, i == j);
        let r = r.and_then(|_| if let Some(t) = &t { call(|| t.commit()).ok().ok_or(json!({"problem": "commit failed"})) } else { Ok(()) });
        if let Err(mut e) = r { e["identifiers"] = json!([rval(x), rval(y)]); rec.viol(format!("{} {} txn={txn}", rval(x), rval(y)), e); }
    } } }
    let mut fs = families();
    let mut seen = BTreeSet::new();
    for f in &mut fs { f.1.retain(|v| seen.insert(idkey(v))); }
    for (what, vals) in fs {
        if !rec.next() { continue; }
        rec.begin(|| format!("values of {what} which differ in one place"));
        rec.eval(Some(h64(&what)));
        rec.count("values_in_families", vals.len() as u64);
        if let Err(e) = family_case(rec, &vals) { rec.viol(format!("values of {what} which differ in one place"), e); }
    }
    for v in all_values() {
        if indexable(&v) || v == Bson::Null { continue; }
        if !rec.next() { continue; }
        rec.begin(|| format!("refused {}", rval(&v)));
        rec.eval(Some(h64(&("refused", rval(&v)))));
        let name = fresh_name("r");
        let c = Coll::auto(s.db(), &name);
        let a = c.insert(&doc! {"_id": v.clone(), "x": 1});
        let b = c.insert_many(&[doc! {"_id": 1}, doc! {"_id": v.clone(), "x": 1}]);
        let k = c.count();
        if !a.is_err() || !b.is_err() || k != Out::Ok(0) { rec.viol(format!("refused {}", rval(&v)), json!({"insert_one": format!("{a:?}"), "insert_many": format!("{b:?}"), "count": format!("{k:?}")})); }
    }
}
/// values which differ in one bit, or in length
fn families() -> Vec<(&'static str, Vec<Bson>)> {
    let bits64 = || std::iter::once(0u64).chain((0..64).map(|b| 1u64 << b)).chain(std::iter::once(u64::MAX));
    let wide = |n: usize| -> Vec<Vec<u8>> { std::iter::once(vec![0u8; n]).chain((0..n * 8).map(move |b| { let mut v = vec![0u8; n]; v[b / 8] = 1 << (b % 8); v })).collect() };
    vec![
        ("Int32", bits64().filter(|b| *b <= u32::MAX as u64).map(|b| Bson::Int32(b as u32 as i32)).collect()),
        ("Int64", bits64().map(|b| Bson::Int64(b as i64)).collect()),
        ("Double", bits64().map(f64::from_bits).chain((0..52).map(|b| f64::from_bits(1.0f64.to_bits() | 1 << b))).filter(|d| !d.is_nan() && d.to_bits() != 1 << 63).map(Bson::Double).collect()),
        ("DateTime", bits64().map(|b| Bson::DateTime(DateTime::from_millis(b as i64))).collect()),
        ("Timestamp", bits64().map(|b| Bson::Timestamp(bson::Timestamp { time: (b >> 32) as u32, increment: b as u32 })).collect()),
        ("ObjectId", wide(12).into_iter().map(|v| Bson::ObjectId(bson::oid::ObjectId::from_bytes(v.try_into().unwrap()))).collect()),
        ("Decimal128", wide(13).into_iter().map(|mut v| { v.extend([0, 0x40, 0x30]); Bson::Decimal128(bson::Decimal128::from_bytes(v.try_into().unwrap())) }).collect()),
        ("String, characters", (0..256u32).chain([0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff]).filter_map(char::from_u32).map(|c| Bson::String(c.to_string())).collect()),
        ("String, in the middle", (0..256u32).filter_map(char::from_u32).map(|c| Bson::String(format!("a{c}b"))).collect()),
        ("String, lengths", (0..300).map(|n| Bson::String("a".repeat(n))).collect()),
        ("String, zero bytes", (0..40).map(|n| Bson::String("\u{0}".repeat(n))).collect()),
        ("Symbol", (0..256u32).filter_map(char::from_u32).map(|c| Bson::Symbol(c.to_string())).chain((2..40).map(|n| Bson::Symbol("a".repeat(n)))).collect()),
    ]
}
fn family_case(rec: &mut Rec, vals: &[Bson]) -> Result<(), Value> {
    let s = Scratch::new(&rec.scratch);
    let k = Coll::auto(s.db(), "k");
    let u = Coll::auto(s.db(), "u");
    let w = Coll::auto(s.db(), "w");
    if !k.create_index("n", None, true).is_ok() { return Err(json!({"problem": "create_index"})); }
    if !u.create_index("v", None, true).is_ok() { return Err(json!({"problem": "create_index"})); }
    if !w.create_index("m.v", None, false).is_ok() { return Err(json!({"problem": "create_index"})); }
    let doc_of = |n: usize, i: usize, v: &Bson| match n { 0 => doc! {"_id": v.clone(), "n": i as i32}, 1 => doc! {"_id": i as i32, "v": v.clone()}, _ => doc! {"_id": i as i32, "m": {"v": v.clone()}} };
    let field = ["_id", "v", "m.v"];
    for (n, c) in [&k, &u, &w].into_iter().enumerate() {
        for (i, v) in vals.iter().enumerate() { let r = c.insert(&doc_of(n, i, v)); if !r.is_ok() { return Err(json!({"insert": rval(v), "as": field[n], "got": format!("{r:?}")})); } }
        for (i, v) in vals.iter().enumerate() {
            rec.tick();
            let want = doc_of(n, i, v);
            match c.find(&doc! {field[n]: v.clone()}) { Out::Ok(d) if d.len() == 1 && rdoc(&d[0]) == rdoc(&want) => {}, g => return Err(json!({"find": rval(v), "in": field[n], "got": format!("{g:?}")})) }
            if n == 0 {
                match c.find(&doc! {"n": i as i32}) { Out::Ok(d) if d.len() == 1 && rdoc(&d[0]) == rdoc(&want) => {}, g => return Err(json!({"find through the index of n, the _id is": rval(v), "got": format!("{g:?}")})) }
                match c.update(i % 2 == 0, &doc! {"n": i as i32}, &doc! {"$inc": {"n": 0}}, false) { Out::Ok((1, _)) => {}, g => return Err(json!({"update through the index of n, the _id is": rval(v), "got": format!("{g:?}")})) }
            }
            if n < 2 { let d = doc_of(n, if n == 0 { i } else { 100_000 }, v); let r = c.insert(&d); if !r.is_err() { return Err(json!({"second insert": rval(v), "as": field[n], "got": format!("{r:?}")})); } }
        }
        // every other one goes
        for (i, v) in vals.iter().enumerate() { if i % 2 == 0 { let r = c.delete(true, &if n == 0 && i % 4 == 0 { doc! {"n": i as i32} } else { doc! {field[n]: v.clone()} }); if r != Out::Ok(1) { return Err(json!({"delete": rval(v), "in": field[n], "got": format!("{r:?}")})); } } }
        for (i, v) in vals.iter().enumerate() {
            let r = c.find(&doc! {field[n]: v.clone()});
            if !matches!(&r, Out::Ok(d) if d.len() == i % 2) { return Err(json!({"find after deletion": rval(v), "in": field[n], "got": format!("{r:?}")})); }
            if i % 2 == 0 { let r = c.insert(&doc_of(n, i, v)); if !r.is_ok() { return Err(json!({"insert again": rval(v), "as": field[n], "got": format!("{r:?}")})); } }
        }
        if c.count() != Out::Ok(vals.len() as u64) { return Err(json!({"count": format!("{:?}", c.count()), "expected": vals.len()})); }
    }
    Ok(())
}
fn id_pair(c: &Coll, x: &Bson, y: &Bson, equal: bool) -> Result<(), Value> {
    let (dx, dy) = (doc! {"_id": x.clone(), "n": "x"}, doc! {"_id": y.clone(), "n": "y"});
    let e = |what: &str, got: String| Err(json!({"step": what, "got": got}));
    let r = c.insert(&dx);
    if !matches!(&r, Out::Ok(i) if rval(i) == rval(x)) { return e("insert x", format!("{r:?}")); }
    let r = c.insert(&dy);
    if equal { if !r.is_err() { return e("a second insert of the same identifier", format!("{r:?}")); } }
    else if !matches!(&r, Out::Ok(i) if rval(i) == rval(y)) { return e("insert y", format!("{r:?}")); }
    let both: Vec<Document> = if equal { vec![dx.clone()] } else { vec![dx.clone(), dy.clone()] };
    let m = load(&both);
    let check = |what: &str, m: &MColl| -> Result<(), Value> {
        for d in [&dx, &dy] {
            let id = d.get("_id").unwrap();
            let want: Vec<Document> = m.docs.get(&idkey(id)).cloned().into_iter().collect();
            match c.find(&doc! {"_id": id.clone()}) { Out::Ok(v) if v.iter().map(rdoc).eq(want.iter().map(rdoc)) => {}, g => return e(what, format!("find {}: {g:?}", rval(id))) }
            match c.find(&doc! {"n": d.get("n").unwrap().clone()}) { Out::Ok(v) if v.iter().map(rdoc).eq(want.iter().filter(|w| w.get("n") == d.get("n")).map(rdoc)) => {}, g if equal && rdoc(d) == rdoc(&dy) => { let _ = g; }, g => return e(what, format!("find n of {}: {g:?}", rval(id))) }
            match c.find_one(&doc! {"_id": id.clone()}) { Out::Ok(v) if v.iter().map(rdoc).eq(want.iter().map(rdoc)) => {}, g => return e(what, format!("find_one {}: {g:?}", rval(id))) }
        }
        match c.all() { Out::Ok(v) => { let g: BTreeSet<String> = v.iter().map(rdoc).collect(); let w: BTreeSet<String> = m.docs.values().map(rdoc).collect(); if g != w || v.len() != w.len() { return e(what, format!("all: {g:?}")); } } g => return e(what, format!("all: {g:?}")) }
        if c.count() != Out::Ok(m.docs.len() as u64) { return e(what, format!("count {:?}", c.count())); }
        Ok(())
    };
    check("after the inserts", &m)?;
    let mut m = m;
    let r = c.update(false, &doc! {"_id": x.clone()}, &doc! {"$set": {"u": 1}}, false);
    if r != Out::Ok((1, 1)) { return e("update x", format!("{r:?}")); }
    m.docs.get_mut(&idkey(x)).unwrap().insert("u", 1);
    check("after the update of x", &m)?;
    let r = c.update(true, &doc! {"_id": y.clone()}, &doc! {"$set": {"w": 1}}, false);
    if r != Out::Ok((1, 1)) { return e("update y", format!("{r:?}")); }
    m.docs.get_mut(&idkey(y)).unwrap().insert("w", 1);
    check("after the update of y", &m)?;
    let r = c.delete(true, &doc! {"_id": x.clone()});
    if r != Out::Ok(1) { return e("delete x", format!("{r:?}")); }
    m.docs.remove(&idkey(x));
    check("after the deletion of x", &m)?;
    let r = c.delete(false, &doc! {"_id": x.clone()});
    if r != Out::Ok(0) { return e("a second deletion of x", format!("{r:?}")); }
    let r = c.insert(&dx);
    if !r.is_ok() { return e("insert x again", format!("{r:?}")); }
    m.docs.insert(idkey(x), dx.clone());
    check("after the second insert of x", &m)
}

// ---------------------------------------------------------------- P24

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev { None, Insert, UpdateAll, UpdateSeen, DeleteAll, DeleteNext, DropColl, DropIndex, CreateIndex, Commit, Rollback, DropTxn, DropDb, OtherCursor, TxnInsert, TxnDelete, TxnUpdateIndexed }
const EVS: [Ev; 17] = [Ev::None, Ev::Insert, Ev::UpdateAll, Ev::UpdateSeen, Ev::DeleteAll, Ev::DeleteNext, Ev::DropColl, Ev::DropIndex, Ev::CreateIndex, Ev::Commit, Ev::Rollback, Ev::DropTxn, Ev::DropDb, Ev::OtherCursor, Ev::TxnInsert, Ev::TxnDelete, Ev::TxnUpdateIndexed];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { All, Filter, Index, Id, Or, Agg, Sort, Limit, AggIndex }
const KINDS: [Kind; 9] = [Kind::All, Kind::Filter, Kind::Index, Kind::Id, Kind::Or, Kind::Agg, Kind::Sort, Kind::Limit, Kind::AggIndex];

fn cursors(rec: &mut Rec) {
    quiet_panics();
    let n_docs = if rec.thorough() { 5 } else { 4 };
    for kind in KINDS { for in_txn in [false, true] { for pos in 0..=n_docs + 1 { for e1 in EVS { for e2 in EVS { for stop in [false, true] {
        if !in_txn && [e1, e2].iter().any(|e| matches!(e, Ev::Commit | Ev::Rollback | Ev::DropTxn | Ev::TxnInsert | Ev::TxnDelete | Ev::TxnUpdateIndexed)) { continue; }
        if in_txn && [e1, e2].iter().any(|e| matches!(e, Ev::DropColl | Ev::DropIndex | Ev::CreateIndex)) && rec.quick() && e2 != Ev::None && e1 != Ev::None { continue; }
        if e1 == Ev::None && e2 != Ev::None { continue; }
        if stop && e2 != Ev::None { continue; }
        if rec.quick() && e2 != Ev::None && kind != Kind::All && kind != Kind::Index && kind != Kind::Sort { continue; }
        if !rec.next() { continue; }
        let what = format!("{kind:?} cursor in_txn={in_txn} read {pos} then {e1:?} {e2:?}{}", if stop { " then dropped" } else { "" });
        rec.begin(|| what.clone());
        rec.eval(Some(h64(&what)));
        if let Err(e) = cursor_case(rec, kind, in_txn, pos, [e1, e2], n_docs, stop) { rec.viol(what, e); }
    } } } } } }
}

fn cursor_case(rec: &Rec, kind: Kind, in_txn: bool, pos: usize, evs: [Ev; 2], n: usize, stop: bool) -> Result<(), Value> {
    let mut s = Scratch::new(&rec.scratch);
    let base = Coll::auto(s.db(), "k");
    must(base.create_index("a", None, false));
    let docs: Vec<Document> = (0..n as i32).map(|i| doc! {"_id": i, "a": 1, "b": n as i32 - i}).collect();
    for d in &docs { must(base.insert(d)); }
    must(base.insert(&doc! {"_id": 100, "a": 2, "b": 0}));
    let q = match kind { Kind::Filter => doc! {"b": {"$gt": 0}}, Kind::Index | Kind::AggIndex => doc! {"a": 1}, Kind::Id => doc! {"_id": 1}, Kind::Or => doc! {"$or": [{"a": 1}, {"b": 1}]}, Kind::Agg => doc! {"a": {"$lt": 2}}, _ => doc! {} };
    let mut txn = if in_txn { Some(s.db().start_transaction().unwrap()) } else { None };
    let pipe = vec![doc! {"$match": q.clone()}, doc! {"$addFields": {"z": 1}}, doc! {"$unset": "z"}];
    let open = |s: &Scratch, txn: &Option<polodb_core::Transaction>| -> ClientCursor<Document> {
        macro_rules! go { ($c:expr) => { match kind {
            Kind::Agg | Kind::AggIndex => $c.aggregate(pipe.clone()).run(),
            Kind::Sort => $c.find(q.clone()).sort(doc! {"b": 1}).run(),
            Kind::Limit => $c.find(q.clone()).limit(3).run(),
            _ => $c.find(q.clone()).run(),
        } } }
        match txn { Some(t) => go!(t.collection::<Document>("k")), None => go!(s.db().collection::<Document>("k")) }.unwrap()
    };
    let full: Vec<String> = { let c = open(&s, &txn); let mut v = vec![]; for d in c { v.push(rdoc(&d.map_err(|e| json!({"plain read": e.to_string()}))?)); } v };
    let mut cur = open(&s, &txn);
    let mut got: Vec<String> = vec![];
    let mut failed = false;
    let pull = |cur: &mut ClientCursor<Document>, got: &mut Vec<String>, failed: &mut bool| -> Result<bool, Value> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cur.next())) {
            Err(_) => Err(json!({"panic": "next()"})),
            Ok(None) => Ok(false),
            Ok(Some(Ok(d))) => { if *failed { return Err(json!({"problem": "a document after an error"})); } got.push(rdoc(&d)); Ok(true) }
            Ok(Some(Err(_))) => { *failed = true; Ok(true) }
        }
    };
    for _ in 0..pos { if !pull(&mut cur, &mut got, &mut failed)? { break; } }
    if failed { return Err(json!({"problem": "an error without a cause"})); }
    // events
    let mut ended = false;      // the transaction of the cursor has ended
    let mut own_writes = false; // writes in the cursor's own transaction
    let mut gone = false;
    for ev in evs {
        if gone { break; }
        let auto = Coll::auto(s.db(), "k");
        let own = txn.as_ref().map(|t| Coll::txn(t, "k"));
        let r: Out<()> = match ev {
            Ev::None => Out::Ok(()),
            Ev::Insert => auto.insert(&doc! {"_id": 50, "a": 1, "b": 2}).map(|_| ()),
            Ev::UpdateAll => auto.update(true, &doc! {}, &doc! {"$inc": {"b": 10}}, false).map(|_| ()),
            Ev::UpdateSeen => auto.update(false, &doc! {"_id": 0}, &doc! {"$set": {"a": 9}}, false).map(|_| ()),
            Ev::DeleteAll => auto.delete(true, &doc! {}).map(|_| ()),
            Ev::DeleteNext => auto.delete(true, &doc! {"_id": {"$gte": pos as i32}}).map(|_| ()),
            Ev::DropColl => auto.drop_coll(),
            Ev::DropIndex => auto.drop_index("a_1"),
            Ev::CreateIndex => auto.create_index("b", None, false),
            Ev::TxnInsert => { own_writes = true; own.map_or(Out::Ok(()), |c| c.insert(&doc! {"_id": 51, "a": 1, "b": 2}).map(|_| ())) }
            Ev::TxnDelete => { own_writes = true; own.map_or(Out::Ok(()), |c| c.delete(true, &doc! {"_id": {"$gte": pos as i32}}).map(|_| ())) }
            Ev::TxnUpdateIndexed => { own_writes = true; own.map_or(Out::Ok(()), |c| c.update(true, &doc! {"a": 1}, &doc! {"$set": {"a": 1, "b": 7}}, false).map(|_| ())) }
            Ev::Commit => { ended = true; txn.as_ref().map_or(Out::Ok(()), |t| call(|| t.commit())) }
            Ev::Rollback => { ended = true; txn.as_ref().map_or(Out::Ok(()), |t| call(|| t.rollback())) }
            Ev::DropTxn => { ended = true; txn = None; Out::Ok(()) }
            Ev::DropDb => { gone = true; if txn.is_some() { ended = true; } drop(auto); drop(own); txn = None; s.db = None; Out::Ok(()) }
            Ev::OtherCursor => { let c = open(&s, &txn); let mut k = 0; for d in c { if d.is_ok() { k += 1; } if k > 1 { break; } } Out::Ok(()) }
        };
        if r.is_panic() { return Err(json!({"event": format!("{ev:?}"), "got": format!("{r:?}")})); }
    }
    if stop {
        drop(cur);
        drop(txn);
        if gone { s.db = Some(call(|| polodb_core::Database::open_path(&s.path)).ok().ok_or(json!({"problem": "cannot open again"}))?); }
        let c = Coll::auto(s.db(), "k");
        let ok = c.insert(&doc! {"_id": "last"}).is_ok() && c.find_one(&doc! {"_id": "last"}).ok().flatten().is_some();
        return if ok { Ok(()) } else { Err(json!({"problem": "the database is not usable after the cursor was dropped"})) };
    }
    for _ in 0..3 * n + 10 { if !pull(&mut cur, &mut got, &mut failed)? { break; } }
    // it has ended for good
    for _ in 0..3 { let k = got.len(); if pull(&mut cur, &mut got, &mut failed)? { return Err(json!({"problem": "the cursor went on after its end", "got": got[k..].to_vec()})); } }
    let distinct: BTreeSet<&String> = got.iter().collect();
    let ids: BTreeSet<String> = got.iter().map(|d| d.split(',').next().unwrap().to_string()).collect();
    if ids.len() != got.len() && !own_writes { return Err(json!({"problem": "a document twice", "got": got})); }
    if distinct.len() != got.len() { return Err(json!({"problem": "a document twice", "got": got})); }
    if own_writes && !(ended && failed) {
        // which of its own later writes the cursor sees is not specified, but documents it did not touch are there
        return if failed { Err(json!({"problem": "an error without a cause"})) } else { Ok(()) };
    }
    if failed { return if ended || gone { if full.starts_with(&got) { Ok(()) } else { Err(json!({"problem": "wrong documents before the error", "got": got, "expected": full})) } } else { Err(json!({"problem": "an error without a cause", "got": got})) }; }
    if got != full { return Err(json!({"got": got, "expected": full})); }
    drop(cur);
    drop(txn);
    if s.db.is_none() { s.db = Some(call(|| polodb_core::Database::open_path(&s.path)).ok().ok_or(json!({"problem": "cannot open again"}))?); }
    let c = Coll::auto(s.db(), "k");
    let ok = c.insert(&doc! {"_id": "last"}).is_ok() && c.find_one(&doc! {"_id": "last"}).ok().flatten().is_some();
    if ok { Ok(()) } else { Err(json!({"problem": "the database is not usable afterwards"})) }
}

// ---------------------------------------------------------------- P25


/// paths which cannot be opened, and files which are not databases
fn hostile_paths(rec: &mut Rec) {
    use std::os::unix::ffi::OsStrExt;
    let names: Vec<Vec<u8>> = vec![b"".to_vec(), b"\xff\xfe".to_vec(), b"a\0b".to_vec(), b"no/such/parent".to_vec(), b"file".to_vec(), b"file/x".to_vec(), b".".to_vec(), b"..".to_vec(), b"dangling".to_vec(), vec![b'n'; 300], b"with space \xc3\xa9 \"quote\"".to_vec(), b"garbage".to_vec(), b"truncated".to_vec(), b"loop".to_vec(), b"/".to_vec(), b"/dev/null".to_vec(), b"/dev/null/x".to_vec()];
    for (i, n) in names.iter().enumerate() { for twice in [false, true] {
        if n.starts_with(b"/") && n.len() == 1 { continue; } // nothing outside the scratch directory is written
        if !rec.next() { continue; }
        let what = format!("open_path({:?}){}", String::from_utf8_lossy(&n[..n.len().min(40)]), if twice { " twice" } else { "" });
        rec.begin(|| what.clone());
        rec.eval(Some(h64(&(i, twice))));
        let dir = fresh_path(&rec.scratch).join("in");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("file"), b"text").unwrap();
        let _ = std::os::unix::fs::symlink("nowhere/x", dir.join("dangling"));
        let _ = std::os::unix::fs::symlink("loop", dir.join("loop"));
        std::fs::create_dir(dir.join("garbage")).unwrap();
        std::fs::write(dir.join("garbage/CURRENT"), b"MANIFEST-000005\n").unwrap();
        std::fs::write(dir.join("garbage/MANIFEST-000005"), b"nonsense").unwrap();
        std::fs::create_dir(dir.join("truncated")).unwrap();
        std::fs::write(dir.join("truncated/CURRENT"), b"").unwrap();
        let p = if n.starts_with(b"/") { PathBuf::from(std::ffi::OsStr::from_bytes(n)) } else { dir.join(std::ffi::OsStr::from_bytes(n)) };
        for _ in 0..if twice { 2 } else { 1 } {
            let r = call(|| polodb_core::Database::open_path(&p));
            match r {
                Out::Panic(e) => { rec.viol(what.clone(), json!({"panic": e})); break; }
                Out::Ok(d) => {
                    let c = Coll::auto(&d, "k");
                    if !c.insert(&doc! {"x": 1}).is_ok() || c.count() == Out::Ok(0) { rec.viol(what.clone(), json!({"problem": "opened, but cannot be used"})); }
                }
                Out::Err(_) => {}
            }
        }
        if std::fs::read(dir.join("file")).ok().as_deref() != Some(b"text") { rec.viol(what, json!({"problem": "a file which is not a database was changed"})); }
        let _ = std::fs::remove_dir_all(dir.parent().unwrap());
    } }
}

fn hostile(rec: &mut Rec) {
    quiet_panics();
    hostile_paths(rec);
    let mut vals = all_values();
    // documents and arrays with operators inside
    for op in ["$eq", "$gt", "$in", "$nin", "$all", "$not", "$size", "$regex", "$and", "$or", "$set", "$sum", "$abs", "$foo", "$"] {
        for x in [Bson::Null, Bson::Int32(1), Bson::Array(vec![]), Bson::Array(vec![Bson::Null]), Bson::Document(doc! {}), Bson::Document(doc! {"$gt": 1}), Bson::Document(doc! {"$in": 1}), Bson::String("$a".into()), re("[", ""), re("a", "zz"), re("(?P<", "i")] {
            vals.push(Bson::Document(doc! {op: x.clone()}));
            vals.push(Bson::Array(vec![Bson::Document(doc! {op: x.clone()})]));
            vals.push(Bson::Document(doc! {"a": {op: x}}));
        }
    }
    let fields = ["a", "_id", "a.b", "a.", ".a", ".", "", "$a", "a..b", "_id.x", "l.0", "\u{0}"];
    let qops = ["$eq", "$ne", "$gt", "$gte", "$lt", "$lte", "$in", "$nin", "$all", "$size", "$regex", "$not", "$exists", "$", "$and", "$or"];
    let uops = ["$set", "$inc", "$mul", "$max", "$min", "$unset", "$push", "$pop", "$rename", "$foo", "", "a", "_id"];
    let stages = ["$match", "$skip", "$limit", "$sort", "$count", "$unset", "$addFields", "$group", "$project", "", "a"];
    let docs: Vec<Document> = vec![doc! {"_id": 1, "a": 1, "l": [1, 2]}, doc! {"_id": "x", "a": "s", "n": {"x": 1}}, doc! {"_id": 2.5, "a": {"b": 1}}, doc! {"_id": 4i64}];
    let mut s = Scratch::new(&rec.scratch);
    let setup = |s: &Scratch| { for (n, ix) in [("plain", false), ("idx", true)] { let c = Coll::auto(s.db(), n); if ix { must(c.create_index("a", None, false)); } for d in &docs { must(c.insert(d)); } } };
    setup(&s);
    let mut used = 0;
    let mut go = |rec: &mut Rec, s: &mut Scratch, what: String, f: &dyn Fn(&Coll, &polodb_core::Database, bool) -> Vec<Out<()>>| {
        if !rec.next() { return; }
        rec.begin(|| short(&what));
        rec.eval(Some(h64(&what)));
        used += 1;
        if used % 300 == 0 { *s = Scratch::new(&rec.scratch); setup(s); }
        for name in ["plain", "idx", "missing"] {
            for in_txn in [true, false] {
                let t = if in_txn { Some(s.db().start_transaction().unwrap()) } else { None };
                let c = match &t { Some(t) => Coll::txn(t, name), None => Coll::auto(s.db(), name) };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&c, s.db(), in_txn)));
                let bad = match &r { Err(_) => true, Ok(v) => v.iter().any(|o| o.is_panic()) };
                let rb = t.as_ref().map(|t| call(|| t.rollback()));
                if bad || rb.as_ref().map_or(false, |r| !r.is_ok()) {
                    rec.viol(format!("{} on {name}", short(&what)), json!({"in_transaction": in_txn, "got": r.map(|v| format!("{:?}", v.iter().find(|o| o.is_panic()))).unwrap_or("panic".into()), "rollback": format!("{rb:?}")}));
                    *s = Scratch::new(&rec.scratch);
                    setup(s);
                    return;
                }
                if !in_txn && used % 8 != 0 { break; }
            }
        }
        // the database is usable, and what was rolled back or refused has left no trace
        let c = Coll::auto(s.db(), "plain");
        let ctl = Coll::auto(s.db(), "control");
        let good = ctl.insert(&doc! {"_id": used}).is_ok() && ctl.find_one(&doc! {"_id": used}).ok().flatten().is_some() && ctl.delete(true, &doc! {"_id": used}) == Out::Ok(1) && c.all().is_ok() && Coll::auto(s.db(), "idx").all().is_ok();
        if !good { rec.viol(format!("{} afterwards", short(&what)), json!({"problem": "the database is not usable"})); *s = Scratch::new(&rec.scratch); setup(s); }
    };
    let u = |o: Out<Vec<Document>>| o.map(|_| ());
    // reads only outside a transaction, so that the contents stay
    let filter = |c: &Coll, q: &Document, t: bool| -> Vec<Out<()>> {
        let mut v = vec![u(c.find(q)), c.find_one(q).map(|_| ()), u(c.aggregate(&[doc! {"$match": q.clone()}, doc! {"$count": "n"}]))];
        if t { v.push(c.update(true, q, &doc! {"$set": {"m": 1}}, false).map(|_| ())); v.push(c.update(false, q, &doc! {"$inc": {"q": 1}}, true).map(|_| ())); v.push(c.delete(false, q).map(|_| ())); v.push(c.delete(true, q).map(|_| ())); }
        v
    };
    for x in &vals {
        for f in fields {
            go(rec, &mut s, format!("filter {{{f:?}: {}}}", rval(x)), &|c, _, t| filter(c, &doc! {f: x.clone()}, t));
            if f == "a" || f == "_id" || rec.thorough() { for op in qops {
                go(rec, &mut s, format!("filter {{{f:?}: {{{op}: {}}}}}", rval(x)), &|c, _, t| filter(c, &doc! {f: {op: x.clone()}}, t));
                go(rec, &mut s, format!("filter {{{f:?}: {{$not: {{{op}: {}}}}}}}", rval(x)), &|c, _, t| filter(c, &doc! {f: {"$not": {op: x.clone()}}}, t));
            } }
        }
        for op in qops { go(rec, &mut s, format!("filter {{{op}: {}}}", rval(x)), &|c, _, t| filter(c, &doc! {op: x.clone()}, t)); go(rec, &mut s, format!("filter {{{op}: [{}]}}", rval(x)), &|c, _, t| filter(c, &doc! {op: [x.clone()]}, t)); go(rec, &mut s, format!("filter {{{op}: [{{a: {}}}]}}", rval(x)), &|c, _, t| filter(c, &doc! {op: [{"a": x.clone()}]}, t)); }
        for op in uops {
            let upd = |c: &Coll, d: Document, t: bool| -> Vec<Out<()>> { if !t { return vec![]; } vec![c.update(false, &doc! {"_id": 1}, &d, false).map(|_| ()), c.update(true, &doc! {}, &d, false).map(|_| ()), c.update(true, &doc! {"a": 1}, &d, true).map(|_| ()), c.update(false, &doc! {"a": 77}, &d, true).map(|_| ()), u(c.all())] };
            go(rec, &mut s, format!("update {{{op}: {}}}", rval(x)), &|c, _, t| upd(c, doc! {op: x.clone()}, t));
            for f in ["a", "_id", "", "a.b", "l", "$a", "new"] { go(rec, &mut s, format!("update {{{op}: {{{f:?}: {}}}}}", rval(x)), &|c, _, t| upd(c, doc! {op: {f: x.clone()}}, t)); }
        }
        for st in stages {
            let agg = |c: &Coll, p: &[Document]| vec![u(c.aggregate(p)), u(c.aggregate(&[&[doc! {"$match": {"a": 1}}], p].concat())), u(c.aggregate(&[p, &[doc! {"$limit": 1}, doc! {"$count": "n"}]].concat()))];
            go(rec, &mut s, format!("stage {{{st}: {}}}", rval(x)), &|c, _, _| agg(c, &[doc! {st: x.clone()}]));
            go(rec, &mut s, format!("stage {{{st}: {{a: {}}}}}", rval(x)), &|c, _, _| agg(c, &[doc! {st: {"a": x.clone()}}]));
            go(rec, &mut s, format!("stage {{{st}: {{_id: {}, n: $sum}}}}", rval(x)), &|c, _, _| agg(c, &[doc! {st: {"_id": x.clone(), "n": {"$sum": x.clone()}}}]));
            go(rec, &mut s, format!("stage {{{st}: {{a: {{$abs: {}}}}}}}", rval(x)), &|c, _, _| agg(c, &[doc! {st: {"a": {"$abs": x.clone()}}}]));
        }
        go(rec, &mut s, format!("sort {{a: {}}}", rval(x)), &|c, _, _| vec![u(c.find_opts(&doc! {}, Some(&doc! {"a": x.clone()}), Some(1), Some(1)))]);
        go(rec, &mut s, format!("insert with {}", rval(x)), &|c, _, t| { if !t { return vec![]; } vec![c.insert(&doc! {"_id": x.clone()}).map(|_| ()), c.insert(&doc! {"_id": "k", "a": x.clone()}).map(|_| ()), c.insert_many(&[doc! {"a": x.clone()}, doc! {"_id": x.clone()}, doc! {"_id": x.clone(), "a": 1}]).map(|_| ()), u(c.all()), u(c.find(&doc! {"a": x.clone()}))] });
        for uniq in [false, true] { go(rec, &mut s, format!("index keys {} unique={uniq}", rval(x)), &|c, _, t| { if !t { return vec![]; } let mk = |keys: Document| IndexModel { keys, options: Some(IndexOptions { name: None, unique: Some(uniq) }) }; let mut o = vec![]; for keys in [doc! {"a": x.clone()}, doc! {"a": x.clone(), "b": 1}, doc! {"b": 1, "a": x.clone()}] { o.push(match c { Coll::Auto(c) => call(|| c.create_index(mk(keys.clone()))), Coll::Txn(c, _) => call(|| c.create_index(mk(keys.clone()))) }); } o.push(c.insert(&doc! {"_id": "after", "a": x.clone(), "b": x.clone()}).map(|_| ())); o.push(c.delete(true, &doc! {"a": x.clone()}).map(|_| ())); o }); }
    }
    // names, numbers, shapes
    for name in ["", " ", ".", "a.b", "$", "\u{0}", "a\u{0}b", "\n", "é", "TABLE_META", &"n".repeat(5000)] {
        go(rec, &mut s, format!("collection name {:?}", short(name)), &|_, db, t| { if t { return vec![]; } let c = Coll::auto(db, name); let v = vec![c.insert(&doc! {"_id": 1}).map(|_| ()), c.create_index("a", None, true), u(c.all()), c.count().map(|_| ()), c.update(true, &doc! {}, &doc! {"$set": {"a": 1}}, true).map(|_| ()), c.drop_index("a_1"), c.drop_coll(), call(|| db.create_collection(name)), c.drop_coll(), c.drop_coll(), call(|| db.list_collection_names()).map(|_| ())]; v });
        go(rec, &mut s, format!("index on {:?} / named so", short(name)), &|c, _, t| { if !t { return vec![]; } vec![c.create_index(name, None, false), c.create_index("a", Some(name), true), c.insert(&doc! {"_id": "z", name: 1}).map(|_| ()), u(c.find(&doc! {name: 1})), c.drop_index(name), c.drop_index(name)] });
    }
    go(rec, &mut s, "empty index keys".into(), &|c, _, t| { if !t { return vec![]; } let mk = || IndexModel { keys: doc! {}, options: None }; vec![match c { Coll::Auto(c) => call(|| c.create_index(mk())), Coll::Txn(c, _) => call(|| c.create_index(mk())) }] });
    for depth in [1usize, 5, 20, 60, 100] { for shape in 0..6 {
        go(rec, &mut s, format!("depth {depth} shape {shape}"), &|c, _, t| {
            let mut d = doc! {"a": 1};
            let mut v = Bson::Int32(1);
            for _ in 0..depth { d = match shape { 0 => doc! {"$and": [d]}, 1 => doc! {"$or": [d, {"a": 2}]}, _ => d }; v = match shape { 2 => Bson::Document(doc! {"$not": if v == Bson::Int32(1) { Bson::Document(doc! {"$gt": 1}) } else { v }}), 3 => Bson::Document(doc! {"$abs": v}), 4 => Bson::Array(vec![v]), _ => Bson::Document(doc! {"x": v}) }; }
            if shape < 2 { filter(c, &d, t) } else if shape == 2 { filter(c, &doc! {"a": v.clone()}, t) } else if shape == 3 { vec![u(c.aggregate(&[doc! {"$addFields": {"z": v}}]))] } else if t { vec![c.insert(&doc! {"_id": "deep", "v": v.clone()}).map(|_| ()), u(c.all()), u(c.find(&doc! {"v": {"$in": [v.clone()]}})), c.update(true, &doc! {}, &doc! {"$max": {"v": v}}, false).map(|_| ())] } else { vec![] }
        });
    } }
    for width in [10usize, 200, 300, 1000, 5000] {
        go(rec, &mut s, format!("width {width}"), &|c, _, t| {
            let list: Vec<Bson> = (0..width).map(|i| Bson::Document(doc! {"a": i as i32})).collect();
            let mut v = filter(c, &doc! {"$or": list.clone()}, t);
            v.extend(filter(c, &doc! {"$and": list.clone()}, t));
            v.extend(filter(c, &doc! {"a": {"$in": (0..width as i32).collect::<Vec<_>>()}}, t));
            v.extend(filter(c, &(0..width).map(|i| (format!("f{i}"), Bson::Int32(1))).collect(), t));
            v.push(u(c.aggregate(&(0..width.min(1000)).map(|i| if i % 2 == 0 { doc! {"$skip": 0} } else { doc! {"$limit": 100} }).collect::<Vec<_>>())));
            v
        });
    }
    for n in [0u64, 1, 2, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX] { for m in [0u64, 1, u64::MAX] { go(rec, &mut s, format!("skip {n} limit {m}"), &|c, _, _| vec![u(c.find_opts(&doc! {}, None, Some(n), Some(m))), u(c.find_opts(&doc! {"a": 1}, Some(&doc! {"a": 1}), Some(m), Some(n)))]); } }
    let _ = UpdateOptions::builder();
}
