//! The Python binding, driven in a real interpreter (P31).
use crate::model::*;
use crate::rec::*;
use crate::seq::*;
use crate::util::*;
use bson::{doc, Bson, Document};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn register(v: &mut Vec<CheckDef>) {
    v.push(CheckDef { id: "P31", level: "model_checking", rule: "distinct values, filters and sequences of operations", assumptions: &["CPython 3.12 of the sandbox"], run: python, preload: Some("fast.so"), workers: 8, hang_s: 90 });
}

// ---------------------------------------------------------------- the interpreter

struct Py { child: Child, to: ChildStdin, from: BufReader<ChildStdout>, db: PathBuf, cases: u32 }
impl Py {
    fn start(rec: &Rec) -> Result<Py, String> {
        let dir = rec.scratch.join("pkg");
        if !dir.join("polodb/rust_polodb.so").exists() {
            std::fs::create_dir_all(dir.join("polodb")).map_err(|e| e.to_string())?;
            for f in ["__init__.py", "core.py"] { std::fs::copy(Path::new("/repo/py-polodb/polodb").join(f), dir.join("polodb").join(f)).map_err(|e| e.to_string())?; }
            std::fs::copy(verif_dir().join("target/repo/debug/librust_polodb.so"), dir.join("polodb/rust_polodb.so")).map_err(|e| e.to_string())?;
        }
        let mut c = Command::new("/opt/vp/venv/bin/python");
        c.arg("-B").arg(verif_dir().join("py/driver.py")).arg(&dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }) };
        let mut child = c.spawn().map_err(|e| e.to_string())?;
        let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        let mut p = Py { child, to, from, db: fresh_path(&rec.scratch), cases: 0 };
        let path = p.db.clone();
        match p.ask(&json!({"op": "open", "path": path}))? { Ok(_) => Ok(p), Err(e) => Err(format!("cannot open: {e}")) }
    }
    /// Ok(Err) is an exception; Err means that the interpreter is gone, or that it panicked
    fn ask(&mut self, c: &Value) -> Result<Result<Value, String>, String> {
        let mut line = c.to_string();
        line.push('\n');
        let r = self.to.write_all(line.as_bytes()).and_then(|_| self.to.flush());
        let mut got = String::new();
        if r.is_err() || self.from.read_line(&mut got).map_or(true, |n| n == 0) { return Err(format!("the interpreter has ended: {:?}", self.child.wait().map(|s| s.to_string()))); }
        let v: Value = serde_json::from_str(&got).map_err(|e| format!("{e}: {got}"))?;
        if let Some(x) = v.get("ok") { return Ok(Ok(x.clone())); }
        let text = format!("{}: {}", v["err"].as_str().unwrap_or(""), v["text"].as_str().unwrap_or(""));
        if v["exception"] != json!(true) { return Err(format!("not an exception of Python: {text}")); }
        Ok(Err(text))
    }
    fn call(&mut self, coll: &str, how: usize, m: &str, args: Vec<Value>) -> Result<Result<Value, String>, String> { self.ask(&json!({"op": "call", "coll": coll, "how": how, "m": m, "a": args})) }
    /// a new database: every access to a collection lists all there are
    fn renew(&mut self, rec: &Rec) -> Result<(), String> {
        self.cases += 1;
        if self.cases % 16 != 0 { return Ok(()); }
        self.ask(&json!({"op": "close"}))?.map_err(|e| format!("close: {e}"))?;
        let _ = std::fs::remove_dir_all(&self.db);
        self.db = fresh_path(&rec.scratch);
        let path = self.db.clone();
        self.ask(&json!({"op": "open", "path": path}))?.map(|_| ()).map_err(|e| format!("open: {e}"))
    }
    fn stop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); let _ = std::fs::remove_dir_all(&self.db); }
}
impl Drop for Py { fn drop(&mut self) { self.stop(); } }

// ---------------------------------------------------------------- values of Python

fn none() -> Value { json!(["n"]) }
fn int(i: impl ToString) -> Value { json!(["i", i.to_string()]) }
fn float(f: f64) -> Value { json!(["f", format!("{:016x}", f.to_bits())]) }
fn text(s: &str) -> Value { json!(["s", s]) }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn list(v: Vec<Value>) -> Value { json!(["l", v]) }
fn dict(v: Vec<(&str, Value)>) -> Value { json!(["d", v.into_iter().map(|(k, x)| json!([text(k), x])).collect::<Vec<_>>()]) }

fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}

/// what the library is to store for a value; None when no value can stand for it
fn to_bson(v: &Value) -> Option<Bson> {
    Some(match v[0].as_str().unwrap() {
        "n" => Bson::Null,
        "b" => Bson::Boolean(v[1].as_bool().unwrap()),
        "i" => Bson::Int64(v[1].as_str().unwrap().parse().ok()?),
        "f" => Bson::Double(f64::from_bits(u64::from_str_radix(v[1].as_str().unwrap(), 16).unwrap())),
        "s" => Bson::String(v[1].as_str().unwrap().into()),
        "y" => { let s = v[1].as_str().unwrap(); Bson::Binary(bson::Binary { subtype: bson::spec::BinarySubtype::Generic, bytes: (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }) }
        "l" => Bson::Array(v[1].as_array().unwrap().iter().map(to_bson).collect::<Option<Vec<_>>>()?),
        "d" => {
            let mut d = Document::new();
            for e in v[1].as_array().unwrap() { if e[0][0] != "s" { return None; } d.insert(e[0][1].as_str().unwrap(), to_bson(&e[1])?); }
            Bson::Document(d)
        }
        "D" => {
            let p: Vec<i64> = v[1].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
            let us = ((days(p[0], p[1], p[2]) * 24 + p[3]) * 60 + p[4] - v[2].as_i64().unwrap_or(0)) * 60_000_000 + p[5] * 1_000_000 + p[6];
            Bson::DateTime(bson::DateTime::from_millis(us.div_euclid(1000)))
        }
        _ => return None,
    })
}
enum Read { Is(Value), Fails, Open }
/// what Python is to see of a stored value
fn from_bson(b: &Bson) -> Read {
    Read::Is(match b {
        Bson::Null | Bson::Undefined | Bson::MinKey | Bson::MaxKey => none(),
        Bson::Boolean(x) => json!(["b", x]),
        Bson::Int32(i) => int(i),
        Bson::Int64(i) => int(i),
        Bson::Double(d) => float(*d),
        Bson::String(s) | Bson::Symbol(s) | Bson::JavaScriptCode(s) => text(s),
        Bson::ObjectId(o) => text(&o.to_hex()),
        Bson::Binary(x) => json!(["y", hex(&x.bytes)]),
        Bson::Timestamp(t) => json!(["t", [int(t.time), int(t.increment)]]),
        Bson::RegularExpression(r) => {
            let f: i64 = r.options.chars().map(|c| match c { 'i' => 2, 'm' => 8, 's' => 16, 'x' => 64, _ => 0 }).sum();
            json!(["r", r.pattern, f])
        }
        Bson::DateTime(t) => {
            let ms = t.timestamp_millis();
            let (y, m, d) = civil(ms.div_euclid(86_400_000));
            let r = ms.rem_euclid(86_400_000);
            if !(1..=9999).contains(&y) { return Read::Fails; }
            json!(["D", [y, m, d, r / 3_600_000, r / 60_000 % 60, r / 1000 % 60, r % 1000 * 1000], 0])
        }
        Bson::Array(a) => { let mut v = vec![]; for x in a { match from_bson(x) { Read::Is(x) => v.push(x), r => return r } } list(v) }
        Bson::Document(d) => { let mut v = vec![]; for (k, x) in d { match from_bson(x) { Read::Is(x) => v.push(json!([text(k), x])), r => return r } } json!(["d", v]) }
        _ => return Read::Open,
    })
}
fn seen(b: &Bson) -> Value { match from_bson(b) { Read::Is(v) => v, _ => json!(["?"]) } }
fn arg(d: &Document) -> Value { seen(&Bson::Document(d.clone())) }
/// the fields of a document of Python, whatever their order
fn fields(v: &Value) -> BTreeMap<String, String> { v[1].as_array().map(|a| a.iter().map(|e| (e[0].to_string(), e[1].to_string())).collect()).unwrap_or_default() }
fn same(v: &Value, d: &Document) -> bool { v[0] == "d" && v[1].as_array().map_or(false, |a| a.len() == d.len()) && fields(v) == fields(&arg(d)) }

fn values() -> Vec<Value> {
    let mut v = vec![none(), json!(["b", true]), json!(["b", false])];
    for i in [0i128, 1, -1, 2, 127, 1 << 31, (1 << 31) - 1, -(1 << 31), -(1 << 31) - 1, 1 << 53, (1 << 53) + 1, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, i64::MIN as i128 - 1, 1 << 64, 10i128.pow(30), -(10i128.pow(30))] { v.push(int(i)); }
    for f in [0.0, -0.0, 1.0, 1.5, -1.5, 2.0, 9007199254740992.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, f64::MAX, f64::MIN_POSITIVE, 9.223372036854776e18] { v.push(float(f)); }
    let long = "0".repeat(5000);
    for s in ["", "a", "b", "a\0b", "é", "😀", "$x", "a.b", "65f000000000000000000001", "1", "true", "\0", "a\0", "\0a", " a ", "\n", "a\r\n", "\u{feff}a", "e\u{301}", "\u{10ffff}", &long] { v.push(text(s)); }
    for b in [&[][..], &[0, 255], &[1; 300], b"a"] { v.push(json!(["y", hex(b)])); }
    v.extend([list(vec![]), list(vec![int(1), text("a"), none()]), list(vec![list(vec![int(1)]), list(vec![])]), list(vec![dict(vec![("x", int(1))])])]);
    v.extend([dict(vec![]), dict(vec![("b", int(1)), ("a", int(2))]), dict(vec![("a", int(2)), ("b", int(1))]), dict(vec![("", int(1))]), dict(vec![(" a ", int(1)), ("a", int(2)), ("A", int(3))]), dict(vec![("x1", int(1)), ("x10", int(2)), ("x2", int(3))]), dict(vec![("é", float(0.5))]), dict(vec![("x", dict(vec![("y", list(vec![none()]))]))])]);
    for (p, z) in [([1970, 1, 1, 0, 0, 0, 0], None), ([2024, 2, 29, 23, 59, 59, 999_999], None), ([2024, 2, 29, 12, 30, 15, 123_000], Some(0)), ([2024, 3, 1, 0, 15, 0, 1], Some(330)), ([1969, 12, 31, 23, 59, 59, 999_500], None), ([1969, 12, 31, 20, 0, 0, 0], Some(-240)), ([1, 1, 1, 0, 0, 0, 0], None), ([9999, 12, 31, 23, 59, 59, 999_999], None), ([1900, 3, 1, 0, 0, 0, 0], Some(0))] { v.push(json!(["D", p, z])); }
    // values no database holds
    v.extend([json!(["t", [int(1)]]), json!(["t", []]), json!(["r", "a", 2]), json!(["d", [[int(1), int(1)]]]), json!(["d", [[none(), int(1)]]]), json!(["d", [[["y", "00"], int(1)]]])]);
    for w in ["object", "set", "date", "delta", "complex", "surrogate", "function", "class", "self dict", "self list", "generator"] { v.push(json!(["w", w])); }
    v
}
fn library_values() -> Vec<Bson> {
    let oid = bson::oid::ObjectId::from_bytes([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 255]);
    let re = |p: &str, o: &str| Bson::RegularExpression(bson::Regex { pattern: p.into(), options: o.into() });
    let mut v = vec![Bson::Null, Bson::Undefined, Bson::MinKey, Bson::MaxKey, Bson::Boolean(true), Bson::Int32(5), Bson::Int32(i32::MIN), Bson::Int64(5), Bson::Double(5.0), Bson::Double(-0.0), Bson::String("x".into()), Bson::Symbol("sy".into()), Bson::JavaScriptCode("f()".into()), Bson::ObjectId(oid),
        Bson::Timestamp(bson::Timestamp { time: 7, increment: 9 }), Bson::Timestamp(bson::Timestamp { time: u32::MAX, increment: u32::MAX }), re("a.b", ""), re("^x", "i"), re("x$", "im"), re("a b", "imsx"), re("é", "s"),
        Bson::Decimal128("1.5".parse().unwrap()), Bson::JavaScriptCodeWithScope(bson::JavaScriptCodeWithScope { code: "x".into(), scope: doc! {"x": 1} })];
    for s in [bson::spec::BinarySubtype::Generic, bson::spec::BinarySubtype::Uuid, bson::spec::BinarySubtype::UserDefined(0x80)] { v.push(Bson::Binary(bson::Binary { subtype: s, bytes: vec![1, 2, 254] })); }
    for ms in [0, -1, 1, 999, 1_700_000_000_123, -62135596800000, -62135596800001, 253402300799999, 253402300800000, i64::MAX, i64::MIN] { v.push(Bson::DateTime(bson::DateTime::from_millis(ms))); }
    v
}

// ---------------------------------------------------------------- the cases

struct Env { py: Option<Py> }
impl Env { fn get(&mut self, rec: &Rec) -> Result<&mut Py, String> { if self.py.is_none() { self.py = Some(Py::start(rec)?); } Ok(self.py.as_mut().unwrap()) } }

fn python(rec: &mut Rec) {
    let quick = rec.quick();
    let mut env = Env { py: None };
    let mut run = |rec: &mut Rec, name: String, f: &mut dyn FnMut(&mut Rec, &mut Py) -> Result<(), Value>| {
        if !rec.next() { return; }
        rec.begin(|| name.clone());
        let r = match env.get(rec) { Ok(p) => match p.renew(rec) { Ok(()) => f(rec, p), Err(e) => Err(json!({"problem": e})) }, Err(e) => Err(json!({"problem": e})) };
        rec.eval(Some(h64(&name)));
        match r { Ok(()) => rec.count("traces_validated_against_impl", 1), Err(e) => { env.py = None; rec.viol(name, e); } }
    };
    let vals = values();
    for v in &vals { for place in 0..PLACES { run(rec, format!("value {v} {}", place_name(place)).chars().take(300).collect(), &mut |_, p| place_case(p, v, place)); } }
    for v in &vals { for op in FILTERS { run(rec, format!("filter {op} {v}").chars().take(300).collect(), &mut |_, p| filter_case(p, v, op)); } }
    let lib = library_values();
    for (i, b) in lib.iter().enumerate() { for nest in 0..3 { run(rec, format!("written by the library: {b:?} {nest}"), &mut |rec, _| library_case(rec, b, nest, i)); } }
    for (m, args) in refused() { run(rec, format!("{m}({})", args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ")), &mut |_, p| refused_case(p, m, &args)); }
    for depth in (1..=190).step_by(if quick { 21 } else { 3 }) { for kind in 0..3 { run(rec, format!("{depth} levels, kind {kind}"), &mut |_, p| deep_case(p, depth, kind, true)); } }
    for depth in [220usize, 300, 1000, 3000, 20_000] { for kind in 0..3 { run(rec, format!("{depth} levels, kind {kind}"), &mut |_, p| deep_case(p, depth, kind, false)); } }
    run(rec, "a generated _id".into(), &mut |_, p| generated_case(p));
    for name in ["a", "é", "a b", "a.b", "a/b", "list_collection_names", "Ω", "x'\"", "1", "%", "$x", "a\nb", "very long name very long name very long name very long name very long name very long name very long name"] { run(rec, format!("the collection {name:?}"), &mut |_, p| name_case(p, name)); }
    for n in if quick { vec![1usize, 2, 99, 100, 101, 102, 127, 128, 255, 256, 257, 1000, 1025] } else { (1..300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4097, 10_001, 65_537]).collect() } { run(rec, format!("{n} documents"), &mut |_, p| many_case(p, n)); }
    // sequences of statements
    let fam = family();
    for d in 1..=if quick { 3 } else { 4 } {
        let mut seqs = vec![];
        sequences(fam.len(), d, |q| seqs.push(q.to_vec()));
        for q in seqs {
            if d == 4 && q[0] > 5 { continue; }
            let name = q.iter().map(|i| fam[*i].text()).collect::<Vec<_>>().join(" | ");
            run(rec, name, &mut |rec, p| sequence_case(rec, p, &q.iter().map(|i| fam[*i].clone()).collect::<Vec<_>>()));
        }
    }
    // opening, entering, leaving and letting go
    for d in 1..=if quick { 4 } else { 5 } {
        let mut seqs = vec![];
        sequences(LIFE.len(), d, |q| seqs.push(q.to_vec()));
        for q in seqs { run(rec, format!("life: {}", q.iter().map(|i| LIFE[*i]).collect::<Vec<_>>().join(" | ")), &mut |rec, p| life_case(rec, p, &q)); }
    }
}

const PLACES: usize = 8;
fn place_name(p: usize) -> &'static str { ["as a field", "in a list", "in a dict", "set by update_one", "set by update_many", "in insert_many", "as _id", "pushed"][p] }
fn rejected(r: &Result<Value, String>) -> bool { r.is_err() }
fn place_case(p: &mut Py, v: &Value, place: usize) -> Result<(), Value> {
    let c = fresh_name("k");
    let e = |what: &str, x: String| json!({"what": what, "problem": x});
    let wrapped = match place { 1 => list(vec![v.clone(), int(7)]), 2 => dict(vec![("x", v.clone()), ("y", int(7))]), _ => v.clone() };
    let id = if place == 6 { v.clone() } else { int(1) };
    let entry = if place == 6 { dict(vec![("_id", id.clone()), ("v", int(1))]) } else if place == 7 { dict(vec![("_id", id.clone()), ("v", list(vec![int(3)]))]) } else if place == 3 || place == 4 { dict(vec![("_id", id.clone()), ("v", int(0))]) } else { dict(vec![("_id", id.clone()), ("v", wrapped.clone())]) };
    // what the library is to hold afterwards
    let mut m = MColl::default();
    let first = to_bson(&entry).map(|b| b.as_document().unwrap().clone());
    let may = first.as_ref().map_or(false, |d| m.insert(d).is_ok());
    let r = if place == 5 { p.call(&c, 0, "insert_many", vec![list(vec![entry.clone(), dict(vec![("_id", int(2))])])]) } else { p.call(&c, 0, "insert_one", vec![entry.clone()]) }.map_err(|x| e("insert", x))?;
    if place == 6 && *v == none() {
        // the library makes an identifier where there is none
        return match &r { Ok(x) if x[1][0][1][1].as_str().map_or(false, |s| s.len() == 24) => Ok(()), _ => Err(json!({"insert": format!("{r:?}")})) };
    }
    if may == rejected(&r) { return Err(json!({"insert": format!("{r:?}"), "expected to be accepted": may})); }
    if may {
        let want = if place == 5 { json!(["d", [[int(0), int(1)], [int(1), int(2)]]]) } else { dict(vec![("inserted_id", seen(first.as_ref().unwrap().get("_id").unwrap()))]) };
        let got = r.unwrap();
        if got[0] != "d" || fields(&got) != fields(&want) { return Err(json!({"insert answers": got, "expected": want})); }
        if place == 5 { m.insert(&doc! {"_id": 2i64}).unwrap(); }
    }
    if place == 3 || place == 4 || place == 7 {
        let op = if place == 7 { "$push" } else { "$set" };
        let u = dict(vec![(op, dict(vec![("v", v.clone())]))]);
        let r = p.call(&c, 0, if place == 4 { "update_many" } else { "update_one" }, vec![dict(vec![("_id", int(1))]), u.clone()]).map_err(|x| e("update", x))?;
        let mut d = first.unwrap();
        let ok = to_bson(&u).map_or(false, |u| apply_update(&mut d, u.as_document().unwrap()).is_ok());
        if ok == rejected(&r) { return Err(json!({"update": format!("{r:?}"), "expected to be accepted": ok})); }
        if ok { m.docs.insert(idkey(&Bson::Int64(1)), d); }
    }
    check_all(p, &c, &m, &[doc! {}])
}

/// find, find_one, aggregate and len against the model
fn check_all(p: &mut Py, c: &str, m: &MColl, qs: &[Document]) -> Result<(), Value> {
    let e = |what: &str, x: String| json!({"reading": what, "problem": x});
    let (n, all) = (m.docs.len(), m);
    let r = p.call(c, 0, "len", vec![]).map_err(|x| e("len", x))?;
    if r != Ok(int(n)) { return Err(json!({"len": format!("{r:?}"), "expected": n})); }
    for q in qs {
        let want = all.matching(q);
        for how in ["find", "aggregate", "find_one"] {
            let a = if how == "aggregate" { list(vec![dict(vec![("$match", arg(q))])]) } else { arg(q) };
            let r = p.call(c, 0, how, vec![a]).map_err(|x| e(how, x))?;
            let ks = match (&want, &r) { (Err(_), Err(_)) => continue, (Ok(k), Ok(_)) => k, _ => return Err(json!({how: format!("{r:?}"), "filter": q.to_string(), "expected": format!("{want:?}")})) };
            let r = r.unwrap();
            let got: Vec<Value> = if how == "find_one" { if r == none() { vec![] } else { vec![r.clone()] } } else { r[1].as_array().cloned().unwrap_or_default() };
            let mut left: Vec<&Document> = ks.iter().map(|k| &m.docs[k]).collect();
            for g in &got { match left.iter().position(|d| same(g, d)) { Some(i) => { left.remove(i); } None => return Err(json!({how: g, "filter": q.to_string(), "expected one of": left.iter().map(|d| d.to_string().chars().take(200).collect::<String>()).collect::<Vec<_>>()})) } }
            let expected = if how == "find_one" { ks.len().min(1) } else { ks.len() };
            if got.len() != expected { return Err(json!({how: r, "filter": q.to_string(), "expected documents": expected})); }
        }
    }
    Ok(())
}

const FILTERS: [&str; 9] = ["", "$eq", "$ne", "$gt", "$lte", "$in", "$nin", "_id", "and"];
/// the documents of the base collection of filters
fn base() -> Vec<Document> {
    let mut v = vec![];
    for (i, x) in values().iter().enumerate() { if let Some(b) = to_bson(x) { if b.as_str().map_or(true, |s| s.len() < 100) { v.push(doc! {"_id": i as i64, "v": b}); } } }
    v.push(doc! {"_id": 1000i64});
    v
}
fn filter_case(p: &mut Py, v: &Value, op: &str) -> Result<(), Value> {
    let e = |what: &str, x: String| json!({"what": what, "problem": x});
    let f = match op {
        "" => dict(vec![("v", v.clone())]),
        "$in" | "$nin" => dict(vec![("v", dict(vec![(op, list(vec![v.clone(), text("zzz")]))]))]),
        "_id" => dict(vec![("_id", v.clone())]),
        "and" => dict(vec![("$and", list(vec![dict(vec![("v", dict(vec![("$eq", v.clone())]))]), dict(vec![("_id", dict(vec![("$gte", int(0))]))])]))]),
        _ => dict(vec![("v", dict(vec![(op, v.clone())]))]),
    };
    let docs = base();
    let mut m = MColl::default();
    for d in &docs { m.insert(d).unwrap(); }
    // one collection for all filters which change nothing
    let c = "filters";
    if p.call(c, 0, "len", vec![]).map_err(|x| e("len", x))? != Ok(int(docs.len())) {
        let r = p.call(c, 0, "insert_many", vec![list(docs.iter().map(arg).collect())]).map_err(|x| e("insert_many", x))?;
        if r.is_err() { return Err(json!({"preparation": format!("{r:?}")})); }
    }
    let want = to_bson(&f).and_then(|f| m.matching(f.as_document().unwrap()).ok());
    for how in ["find", "find_one", "aggregate", "update_many", "update_one"] {
        let mut a = vec![if how == "aggregate" { list(vec![dict(vec![("$match", f.clone())])]) } else { f.clone() }];
        // an update which sets what is there already
        if how.starts_with("update") { a.push(dict(vec![("$unset", dict(vec![("nothing", text(""))]))])); }
        let r = p.call(c, 0, how, a).map_err(|x| e(how, x))?;
        let (ks, r) = match (&want, r) { (None, Err(_)) => continue, (Some(k), Ok(r)) => (k, r), (_, r) => return Err(json!({how: format!("{r:?}"), "expected": format!("{want:?}")})) };
        if how.starts_with("update") {
            let n = if how == "update_one" { ks.len().min(1) } else { ks.len() };
            if fields(&r).get(&text("matched_count").to_string()) != Some(&int(n).to_string()) { return Err(json!({how: r, "expected": n})); }
            continue;
        }
        let got: Vec<Value> = if how == "find_one" { if r == none() { vec![] } else { vec![r.clone()] } } else { r[1].as_array().cloned().unwrap_or_default() };
        let set: BTreeSet<i64> = got.iter().filter_map(|d| d[1].as_array()?.iter().find(|e| e[0] == text("_id"))?[1][1].as_str()?.parse().ok()).collect();
        let w: BTreeSet<i64> = ks.iter().map(|k| m.docs[k].get_i64("_id").unwrap()).collect();
        if set.len() != got.len() || (how != "find_one" && set != w) || (how == "find_one" && (set.len() != w.len().min(1) || !set.is_subset(&w))) { return Err(json!({how: format!("{set:?}"), "expected": format!("{w:?}")})); }
        for g in &got { if !docs.iter().any(|d| same(g, d)) { return Err(json!({how: g, "problem": "no such document was stored"})); } }
    }
    // what is deleted is what is found
    if let Some(ks) = &want {
        if ks.len() <= 40 {
            let c = fresh_name("k");
            let r = p.call(&c, 0, "insert_many", vec![list(docs.iter().map(arg).collect())]).map_err(|x| e("insert_many", x))?;
            if r.is_err() { return Err(json!({"preparation": format!("{r:?}")})); }
            let r = p.call(&c, 0, "delete_one", vec![f.clone()]).map_err(|x| e("delete_one", x))?;
            if r != Ok(dict(vec![("deleted_count", int(ks.len().min(1)))])) { return Err(json!({"delete_one": format!("{r:?}"), "expected": ks.len().min(1)})); }
            let r = p.call(&c, 0, "delete_many", vec![f.clone()]).map_err(|x| e("delete_many", x))?;
            if r != Ok(dict(vec![("deleted_count", int(ks.len().max(1) - 1))])) { return Err(json!({"delete_many": format!("{r:?}"), "expected": ks.len().max(1) - 1})); }
            let r = p.call(&c, 0, "len", vec![]).map_err(|x| e("len", x))?;
            if r != Ok(int(docs.len() - ks.len())) { return Err(json!({"len": format!("{r:?}"), "expected": docs.len() - ks.len()})); }
            p.call(&c, 0, "delete_many", vec![dict(vec![])]).map_err(|x| e("delete_many", x))?.map_err(|x| e("delete_many", x))?;
        }
    } else {
        for how in ["delete_one", "delete_many"] { let r = p.call(c, 0, how, vec![f.clone()]).map_err(|x| e(how, x))?; if r.is_ok() { return Err(json!({how: format!("{r:?}"), "expected": "an exception"})); } }
    }
    let r = p.call(c, 0, "len", vec![]).map_err(|x| e("len", x))?;
    if r != Ok(int(docs.len())) { return Err(json!({"len": format!("{r:?}")})); }
    Ok(())
}

fn library_case(rec: &mut Rec, b: &Bson, nest: usize, i: usize) -> Result<(), Value> {
    let path = fresh_path(&rec.scratch);
    let v = match nest { 0 => b.clone(), 1 => Bson::Array(vec![Bson::Int32(1), b.clone()]), _ => Bson::Document(doc! {"x": {"y": b.clone()}}) };
    {
        let db = open(&path);
        let c = Coll::auto(&db, "k");
        for d in [doc! {"_id": 1i64, "v": v.clone()}, doc! {"_id": 2i64, "v": 5}] { let r = c.insert(&d); if !r.is_ok() { return Err(json!({"preparation": format!("{r:?}")})); } }
    }
    let mut p = Py::start(rec).map_err(|e| json!({"problem": e}))?;
    let e = |what: &str, x: String| json!({"what": what, "problem": x});
    // a second database in the same interpreter
    p.ask(&json!({"op": "close"})).map_err(|x| e("close", x))?.map_err(|x| e("close", x))?;
    p.ask(&json!({"op": "open", "path": path})).map_err(|x| e("open", x))?.map_err(|x| e("open", x))?;
    let q = dict(vec![("_id", int(1))]);
    for how in ["find_one", "find", "aggregate"] {
        let a = if how == "aggregate" { list(vec![dict(vec![("$match", q.clone())])]) } else { q.clone() };
        let r = p.call("k", i % 3, how, vec![a]).map_err(|x| e(how, x))?;
        let r = r.map(|r| if how == "find_one" { r } else { r[1][0].clone() });
        match (from_bson(&v), r) {
            (Read::Open, _) => {}
            (Read::Fails, Err(_)) => {}
            (Read::Is(w), Ok(g)) if g[0] == "d" && fields(&g) == fields(&dict(vec![("_id", int(1)), ("v", w.clone())])) => {}
            (Read::Is(w), g) => return Err(json!({how: format!("{g:?}"), "expected": w})),
            (Read::Fails, g) => return Err(json!({how: format!("{g:?}"), "expected": "an exception"})),
        }
    }
    let r = p.call("k", 0, "find_one", vec![dict(vec![("_id", int(2))])]).map_err(|x| e("find_one", x))?;
    if !r.as_ref().map_or(false, |r| same(r, &doc! {"_id": 2i64, "v": 5})) { return Err(json!({"find_one of another": format!("{r:?}")})); }
    p.stop();
    let _ = std::fs::remove_dir_all(&path);
    Ok(())
}

fn refused() -> Vec<(&'static str, Vec<Value>)> {
    let d = dict(vec![]);
    let set = dict(vec![("$set", dict(vec![("v", int(5))]))]);
    let mut v = vec![];
    for bad in [none(), int(5), text("x"), list(vec![]), list(vec![d.clone()]), json!(["t", [d]])] {
        for m in ["insert_one", "find", "find_one", "delete_one", "delete_many"] { v.push((m, vec![bad.clone()])); }
        for m in ["update_one", "update_many"] { v.push((m, vec![bad.clone(), set.clone()])); v.push((m, vec![d.clone(), bad.clone()])); }
    }
    for bad in [none(), int(5), text("x"), d.clone(), list(vec![int(5)]), list(vec![none()]), list(vec![dict(vec![]), text("x")]), json!(["t", [d]])] { for m in ["insert_many", "aggregate"] { v.push((m, vec![bad.clone()])); } }
    for q in [dict(vec![("$nope", int(1))]), dict(vec![("v", dict(vec![("$nope", int(1))]))]), dict(vec![("v", dict(vec![("$in", int(1))]))]), dict(vec![("$and", int(1))])] {
        for m in ["find", "find_one", "delete_one", "delete_many"] { v.push((m, vec![q.clone()])); }
        for m in ["update_one", "update_many"] { v.push((m, vec![q.clone(), set.clone()])); }
        v.push(("aggregate", vec![list(vec![dict(vec![("$match", q.clone())])])]));
    }
    for u in [dict(vec![("$nope", dict(vec![("v", int(1))]))]), dict(vec![("$set", int(1))]), dict(vec![("$inc", dict(vec![("s", int(1))]))]), dict(vec![("$set", dict(vec![("_id", int(77))]))]), dict(vec![("$push", dict(vec![("v", int(1))]))])] { for m in ["update_one", "update_many"] { v.push((m, vec![d.clone(), u.clone()])); } }
    for s in ["$nope", "$limit", "$skip", "$sort", "$match", "$count"] { v.push(("aggregate", vec![list(vec![dict(vec![(s, list(vec![text("x")]))])])])); }
    v.push(("insert_one", vec![dict(vec![("_id", int(1)), ("v", int(9))])]));
    v.push(("insert_many", vec![list(vec![dict(vec![("_id", int(8))]), dict(vec![("_id", int(1))])])]));
    v.push(("insert_many", vec![list(vec![dict(vec![("_id", int(8))]), dict(vec![("_id", int(8))])])]));
    v.push(("insert_many", vec![list(vec![dict(vec![("_id", int(8))]), dict(vec![("v", json!(["w", "object"]))])])]));
    v.push(("insert_one", vec![dict(vec![("_id", list(vec![]))])]));
    for m in ["insert_one", "insert_many", "find", "find_one", "delete_one", "delete_many", "update_one", "update_many", "aggregate"] { v.push((m, vec![])); v.push((m, vec![d.clone(), d.clone(), d.clone()])); }
    v.push(("no_such_method", vec![]));
    v
}
fn refused_case(p: &mut Py, m: &str, args: &[Value]) -> Result<(), Value> {
    let c = fresh_name("k");
    let e = |what: &str, x: String| json!({"what": what, "problem": x});
    let mut model = MColl::default();
    for d in [doc! {"_id": 1i64, "v": 1i64, "s": "x"}, doc! {"_id": 2i64, "v": 2i64, "s": "x"}] { model.insert(&d).unwrap(); p.call(&c, 0, "insert_one", vec![arg(&d)]).map_err(|x| e("insert", x))?.map_err(|x| e("insert", x))?; }
    let r = p.call(&c, 0, m, args.to_vec()).map_err(|x| e(m, x))?;
    if r.is_ok() { return Err(json!({m: format!("{r:?}"), "expected": "an exception"})); }
    check_all(p, &c, &model, &[doc! {}, doc! {"v": 1i64}])?;
    let r = p.call(&c, 0, "update_many", vec![dict(vec![]), dict(vec![("$inc", dict(vec![("v", int(1))]))])]).map_err(|x| e("update_many", x))?;
    for d in model.docs.values_mut() { let v = d.get_i64("v").unwrap(); d.insert("v", v + 1); }
    if !r.as_ref().map_or(false, |r| fields(r) == fields(&dict(vec![("matched_count", int(2)), ("modified_count", int(2))]))) { return Err(json!({"afterwards update_many": format!("{r:?}")})); }
    check_all(p, &c, &model, &[doc! {}])
}
fn deep_case(p: &mut Py, depth: usize, kind: usize, may: bool) -> Result<(), Value> {
    let c = fresh_name("k");
    let r = p.ask(&json!({"op": "deep", "coll": c, "kind": kind, "depth": depth, "id": 1})).map_err(|x| json!({"problem": x}))?;
    match (&r, may) {
        (Ok(v), true) if *v == list(vec![json!(["b", true]); 3]) => Ok(()),
        // deeper values may be refused, or stored
        (Ok(v), false) if *v == list(vec![json!(["b", true]); 3]) => Ok(()),
        (Err(_), false) => { let r = p.call(&c, 0, "find", vec![dict(vec![])]).map_err(|x| json!({"problem": x}))?; if r == Ok(list(vec![])) { Ok(()) } else { Err(json!({"after the refusal": format!("{r:?}").chars().take(300).collect::<String>()})) } }
        _ => Err(json!({"answer": format!("{r:?}"), "expected to be stored": may})),
    }
}
fn generated_case(p: &mut Py) -> Result<(), Value> {
    let c = fresh_name("k");
    let e = |what: &str, x: String| json!({"what": what, "problem": x});
    let r = p.call(&c, 0, "insert_one", vec![dict(vec![("v", int(1))])]).map_err(|x| e("insert", x))?.map_err(|x| e("insert", x))?;
    let id = r[1][0][1].clone();
    let r = p.call(&c, 0, "find_one", vec![dict(vec![("v", int(1))])]).map_err(|x| e("find_one", x))?.map_err(|x| e("find_one", x))?;
    if fields(&r) != fields(&dict(vec![("_id", id.clone()), ("v", int(1))])) { return Err(json!({"found": r, "inserted": id})); }
    let r = p.call(&c, 0, "find_one", vec![dict(vec![("_id", id.clone())])]).map_err(|x| e("find_one", x))?.map_err(|x| e("find_one", x))?;
    if r == none() { return Err(json!({"find_one by the _id of insert_one": r, "_id": id})); }
    Ok(())
}
/// statements upon many documents
fn many_case(p: &mut Py, n: usize) -> Result<(), Value> {
    let c = fresh_name("k");
    let mut at = |what: &str, m: &str, args: Vec<Value>| -> Result<Value, Value> { p.call(&c, 0, m, args).map_err(|x| json!({"what": what, "problem": x}))?.map_err(|x| json!({"what": what, "exception": x})) };
    let eq = |what: &str, got: Value, want: Value| if got == want { Ok(()) } else { Err(json!({"what": what, "answer": got.to_string().chars().take(600).collect::<String>(), "expected": want.to_string().chars().take(600).collect::<String>()})) };
    let none_ = dict(vec![]);
    let docs: Vec<Document> = (0..n).map(|i| doc! {"_id": i as i64, "h": (i % 2) as i64, "s": i.to_string()}).collect();
    let r = at("insert_many", "insert_many", vec![list(docs.iter().map(arg).collect())])?;
    let want: BTreeMap<String, String> = (0..n).map(|i| (int(i).to_string(), int(i).to_string())).collect();
    if r[0] != "d" || r[1].as_array().map_or(0, |a| a.len()) != n || fields(&r) != want { return eq("insert_many", r, json!(["d", "every place and its identifier"])); }
    let odd = n / 2;
    let ids = |r: &Value| -> BTreeSet<String> { r[1].as_array().map(|a| a.iter().map(|d| d.to_string()).collect()).unwrap_or_default() };
    for (f, k) in [(none_.clone(), n), (dict(vec![("h", int(1))]), odd), (dict(vec![("_id", dict(vec![("$gte", int(odd))]))]), n - odd)] {
        for how in ["find", "aggregate"] {
            let r = at(how, how, vec![if how == "find" { f.clone() } else { list(vec![dict(vec![("$match", f.clone())])]) }])?;
            eq(how, json!([r[1].as_array().map_or(0, |a| a.len()), ids(&r).len()]), json!([k, k]))?;
        }
        eq("update_many", at("update_many", "update_many", vec![f.clone(), dict(vec![("$inc", dict(vec![("h", int(2))]))])])?, dict(vec![("matched_count", int(k)), ("modified_count", int(k))]))?;
        eq("update_many back", at("update_many", "update_many", vec![match k == odd && n > 1 && f != none_ && f.to_string().contains("\"h\"") { true => dict(vec![("h", int(3))]), _ => f.clone() }, dict(vec![("$inc", dict(vec![("h", int(-2))]))])])?, dict(vec![("matched_count", int(k)), ("modified_count", int(k))]))?;
    }
    eq("len", at("len", "len", vec![])?, int(n))?;
    let got = at("find", "find", vec![none_.clone()])?;
    for d in &docs { if ids(&got).len() != n { break; } let Some(g) = got[1].as_array().unwrap().iter().find(|g| g[1].as_array().unwrap().iter().any(|e| e[0] == text("_id") && e[1] == int(d.get_i64("_id").unwrap()))) else { return Err(json!({"not found": d.to_string()})) }; if !same(g, d) { return Err(json!({"found": g, "stored": d.to_string()})); } if n > 1100 { break; } }
    eq("delete_many", at("delete_many", "delete_many", vec![dict(vec![("h", int(1))])])?, dict(vec![("deleted_count", int(odd))]))?;
    eq("len", at("len", "len", vec![])?, int(n - odd))?;
    eq("delete_one", at("delete_one", "delete_one", vec![none_.clone()])?, dict(vec![("deleted_count", int((n - odd).min(1)))]))?;
    eq("delete_many of all", at("delete_many", "delete_many", vec![none_.clone()])?, dict(vec![("deleted_count", int((n - odd).max(1) - 1))]))?;
    eq("len", at("len", "len", vec![])?, int(0))?;
    eq("find", at("find", "find", vec![none_])?, list(vec![]))
}
fn name_case(p: &mut Py, name: &str) -> Result<(), Value> {
    let e = |what: &str, x: String| json!({"what": what, "problem": x});
    let names = |p: &mut Py| -> Result<Vec<Value>, Value> { Ok(p.ask(&json!({"op": "names"})).map_err(|x| e("names", x))?.map_err(|x| e("names", x))?[1].as_array().unwrap().clone()) };
    let before = names(p)?;
    if name.contains(['$', '.', '\n', '\t', '\r']) {
        let r = p.call(name, 0, "insert_one", vec![dict(vec![("_id", int(1))])]).map_err(|x| e("insert", x))?;
        return if r.is_err() && names(p)?.len() == before.len() { Ok(()) } else { Err(json!({"insert": format!("{r:?}"), "names": names(p)?})) };
    }
    for how in [0, 2] {
        p.call(name, how, "insert_one", vec![dict(vec![("_id", int(how))])]).map_err(|x| e("insert", x))?.map_err(|x| e("insert", x))?;
        let r = p.call(name, how, "name", vec![]).map_err(|x| e("name", x))?;
        if r != Ok(text(name)) { return Err(json!({"name": format!("{r:?}")})); }
    }
    let mut want: BTreeSet<String> = before.iter().map(|v| v.to_string()).collect();
    want.insert(text(name).to_string());
    let after = names(p)?;
    if after.iter().map(|v| v.to_string()).collect::<BTreeSet<_>>() != want || after.len() != want.len() { return Err(json!({"names": after, "expected": want})); }
    let r = p.call(name, 0, "len", vec![]).map_err(|x| e("len", x))?;
    if r != Ok(int(2)) { return Err(json!({"len": format!("{r:?}")})); }
    p.call(name, 0, "delete_many", vec![dict(vec![])]).map_err(|x| e("delete", x))?.map_err(|x| e("delete", x))?;
    Ok(())
}

fn family() -> Vec<Op> {
    let u = |many: bool, q: Document, u: Document| Op::Upd { c: "k", many, q, u };
    let del = |many: bool, q: Document| Op::Del { c: "k", many, q };
    vec![
        Op::Ins("k", doc! {"_id": 3i64, "a": 1i64}), u(true, doc! {"a": 1i64}, doc! {"$set": {"a": 2i64}}), del(false, doc! {"a": 1i64}), Op::InsMany("k", vec![doc! {"_id": 4i64, "a": 1i64}, doc! {"_id": "x", "b": [1i64, {"c": Bson::Null}]}]), u(false, doc! {"a": 1i64}, doc! {"$inc": {"a": 1i64, "n": 2i64}}), del(true, doc! {"a": 2i64}),
        u(true, doc! {}, doc! {"$unset": {"b": ""}}), u(false, doc! {"_id": 9i64}, doc! {"$set": {"a": 1i64}}), Op::InsMany("k", vec![doc! {"_id": 5i64}, doc! {"_id": 1i64}]), Op::InsMany("k", vec![]),
        u(true, doc! {"_id": {"$gte": 2i64}}, doc! {"$push": {"l": 1i64}}), u(true, doc! {}, doc! {"$max": {"a": 2i64}}), del(true, doc! {"_id": {"$lt": 3i64}}), u(true, doc! {}, doc! {"$nope": {"a": 1i64}}), Op::Reopen,
    ]
}
fn sequence_case(rec: &mut Rec, p: &mut Py, ops: &[Op]) -> Result<(), Value> {
    let c = fresh_name("k");
    let fail = |i: usize, e: String| json!({"step": i, "problem": e});
    let mut m = MDb::default();
    for d in [doc! {"_id": 1i64, "a": 1i64, "b": "y"}, doc! {"_id": 2i64, "a": 1i64}] {
        p.call(&c, 0, "insert_one", vec![arg(&d)]).map_err(|e| fail(0, e))?.map_err(|e| fail(0, e))?;
        m = model_step(&m, &Op::Ins("k", d))[0].0.clone();
    }
    let mut cands = vec![m];
    for (i, op) in ops.iter().enumerate() {
        rec.tick();
        rec.count("transitions", 1);
        let many = |m: bool, w: &str| format!("{w}_{}", if m { "many" } else { "one" });
        let r = match op {
            Op::Ins(_, d) => p.call(&c, i % 3, "insert_one", vec![arg(d)]),
            Op::InsMany(_, ds) => p.call(&c, i % 3, "insert_many", vec![list(ds.iter().map(arg).collect())]),
            Op::Upd { many: x, q, u, .. } => p.call(&c, i % 3, &many(*x, "update"), vec![arg(q), arg(u)]),
            Op::Del { many: x, q, .. } => p.call(&c, i % 3, &many(*x, "delete"), vec![arg(q)]),
            _ => {
                p.ask(&json!({"op": "close"})).map_err(|e| fail(i, e))?.map_err(|e| fail(i, e))?;
                let path = p.db.clone();
                p.ask(&json!({"op": "open", "path": path}))
            }
        }.map_err(|e| fail(i, e))?;
        let mut next: Vec<MDb> = vec![];
        for m in &cands { for (n, e) in model_step(m, op) {
            let fits = match (&e, &r) {
                (Expect::Rejected(_), Err(_)) => true,
                (Expect::Unit, Ok(v)) => *v == none(),
                (Expect::Insert(ids), Ok(v)) => match op {
                    Op::Ins(..) => *v == dict(vec![("inserted_id", seen(&ids[0]))]),
                    _ => v[0] == "d" && fields(v) == ids.iter().enumerate().map(|(k, x)| (int(k).to_string(), seen(x).to_string())).collect(),
                },
                (Expect::Update { matched, changed }, Ok(v)) => {
                    let f = fields(v);
                    let n: Option<u64> = f.get(&text("modified_count").to_string()).and_then(|s| serde_json::from_str::<Value>(s).ok()).and_then(|v| v[1].as_str()?.parse().ok());
                    v[0] == "d" && f.len() == 2 && f.get(&text("matched_count").to_string()) == Some(&int(matched).to_string()) && n.map_or(false, |n| n >= *changed && n <= *matched)
                }
                (Expect::Delete(n), Ok(v)) => *v == dict(vec![("deleted_count", int(n))]),
                _ => false,
            };
            if fits { next.push(n); }
        } }
        if next.is_empty() { return Err(json!({"step": i, "operation": op.text(), "answer": format!("{r:?}"), "expected": format!("{:?}", model_step(&cands[0], op).into_iter().map(|x| x.1).collect::<Vec<_>>())})); }
        // which of them is it?
        let mut why = Value::Null;
        let mut keep = vec![];
        for n in next { match check_all(p, &c, n.colls.get("k").unwrap_or(&MColl::default()), &[doc! {}]) { Ok(()) => keep.push(n), Err(e) => why = e } }
        if keep.is_empty() { return Err(json!({"step": i, "operation": op.text(), "answer": format!("{r:?}"), "contents": why})); }
        cands = keep;
    }
    let m = cands[0].colls.get("k").cloned().unwrap_or_default();
    rec.state(h64(&format!("{:?}", m.docs.values().map(rsorted).collect::<Vec<_>>())));
    check_all(p, &c, &m, &[doc! {"a": 1i64}, doc! {"a": {"$gt": 1i64}}, doc! {"_id": 2i64}, doc! {"b": "y"}])?;
    // aggregation
    let by_id = |q: &Document| -> Vec<Value> { let mut v: Vec<&Document> = m.matching(q).unwrap().into_iter().map(|k| &m.docs[&k]).collect(); v.sort_by(|a, b| sort_cmp(a, b, &doc! {"_id": 1})); v.into_iter().map(|d| d.get("_id").map(seen).unwrap()).collect() };
    let n = m.docs.len();
    for (q, skip, limit) in [(doc! {}, 0usize, 100usize), (doc! {}, 1, 2), (doc! {"a": 1i64}, 0, 1)] {
        let stages = list(vec![dict(vec![("$match", arg(&q))]), dict(vec![("$sort", dict(vec![("_id", int(1))]))]), dict(vec![("$skip", int(skip))]), dict(vec![("$limit", int(limit))])]);
        let r = p.call(&c, 0, "aggregate", vec![stages]).map_err(|e| fail(99, e))?;
        let got: Option<Vec<Value>> = r.as_ref().ok().map(|r| r[1].as_array().unwrap().iter().map(|d| d[1].as_array().unwrap().iter().find(|e| e[0] == text("_id")).map(|e| e[1].clone()).unwrap_or_default()).collect());
        let want: Vec<Value> = by_id(&q).into_iter().skip(skip).take(limit).collect();
        if got.as_ref() != Some(&want) { return Err(json!({"aggregate": format!("{r:?}"), "expected ids": want})); }
    }
    let r = p.call(&c, 0, "aggregate", vec![list(vec![dict(vec![("$count", text("n"))])])]).map_err(|e| fail(99, e))?;
    if n > 0 && r != Ok(list(vec![dict(vec![("n", int(n))])])) { return Err(json!({"$count": format!("{r:?}"), "expected": n})); }
    p.call(&c, 0, "delete_many", vec![dict(vec![])]).map_err(|e| fail(99, e))?.map_err(|e| fail(99, e))?;
    Ok(())
}

const LIFE: [&str; 7] = ["open", "enter", "exit", "let go", "insert", "keep", "insert into kept"];
fn life_case(rec: &mut Rec, p: &mut Py, steps: &[usize]) -> Result<(), Value> {
    let path = fresh_path(&rec.scratch);
    let e = |i: usize, x: String| json!({"step": i, "problem": x});
    p.ask(&json!({"op": "close"})).map_err(|x| e(0, x))?.map_err(|x| e(0, x))?;
    let r = (|| {
        let (mut obj, mut live, mut kept): (bool, bool, Option<bool>) = (false, false, None);
        let mut n = 0;
        for (i, s) in steps.iter().chain([3, 0, 4].iter()).enumerate() {
            rec.count("transitions", 1);
            let last = i >= steps.len();
            let new = |n: i32| vec![dict(vec![("_id", int(n))])];
            let (r, may) = match *s {
                // the directory belongs to one object at a time
                0 => (p.ask(&json!({"op": "open", "path": path})), { let ok = !live; if ok { obj = true; live = true; } ok }),
                1 => (p.ask(&json!({"op": "enter", "path": path})), { if !live { kept = kept.map(|_| false); } obj = true; live = true; true }),
                2 => { if !obj { continue; } (p.ask(&json!({"op": "exit"})), { live = false; kept = kept.map(|_| false); true }) }
                3 => (p.ask(&json!({"op": "close"})), { obj = false; live = false; kept = None; true }),
                4 => { if !obj { continue; } if live { n += 1; } (p.call("k", 0, "insert_one", new(n + if live { 0 } else { 1000 })), live) }
                5 => { if !obj { continue; } if live { kept = Some(true); } (p.ask(&json!({"op": "keep", "coll": "k"})), live) }
                _ => { let Some(k) = kept else { continue }; if k { n += 1; } (p.call("k", 3, "insert_one", new(n + if k { 0 } else { 2000 })), k) }
            };
            let r = r.map_err(|x| e(i, x))?;
            if r.is_ok() != may { return Err(json!({"step": i, "what": LIFE[*s], "answer": format!("{r:?}"), "expected to work": may, "closing": last})); }
            if live {
                let r = p.ask(&json!({"op": "names"})).map_err(|x| e(i, x))?;
                let want = if n > 0 || kept == Some(true) { 1 } else { 0 };
                let have = r.as_ref().ok().and_then(|v| v[1].as_array().map(|a| a.len()));
                if have.map_or(true, |h| h < want || h > 1) { return Err(json!({"step": i, "names": format!("{r:?}")})); }
            }
        }
        let mut m = MColl::default();
        for i in 1..=n as i64 { m.insert(&doc! {"_id": i}).unwrap(); }
        check_all(p, "k", &m, &[doc! {}])?;
        rec.state(h64(&format!("{steps:?}")));
        Ok(())
    })();
    // back to the database of the other cases
    let _ = p.ask(&json!({"op": "close"}));
    let own = p.db.clone();
    p.ask(&json!({"op": "open", "path": own})).map_err(|x| e(99, x))?.map_err(|x| e(99, x))?;
    let _ = std::fs::remove_dir_all(&path);
    r
}
