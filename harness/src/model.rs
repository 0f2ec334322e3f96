//! Boring reference model of PoloDB's documented behaviour.
use bson::{Bson, Document};
use std::cmp::Ordering;
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub struct Reject(pub String);
pub type R<T> = Result<T, Reject>;
pub fn rej<T>(s: &str) -> R<T> { Err(Reject(s.to_string())) }

// ---------------------------------------------------------------- values

fn is_num(b: &Bson) -> bool { matches!(b, Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_)) }

/// exact comparison of an integer with a double
fn cmp_i_f(i: i64, f: f64) -> Ordering {
    if f.is_nan() { return if f.is_sign_negative() { Ordering::Greater } else { Ordering::Less }; }
    if f >= 9223372036854775808.0 { return Ordering::Less; }
    if f < -9223372036854775808.0 { return Ordering::Greater; }
    let t = f.trunc();
    let ti = t as i64;
    match i.cmp(&ti) {
        Ordering::Equal => { let frac = f - t; if frac > 0.0 { Ordering::Less } else if frac < 0.0 { Ordering::Greater } else { Ordering::Equal } }
        o => o,
    }
}

fn cmp_num(a: &Bson, b: &Bson) -> Ordering {
    let int = |x: &Bson| match x { Bson::Int32(i) => Some(*i as i64), Bson::Int64(i) => Some(*i), _ => None };
    match (int(a), int(b)) {
        (Some(x), Some(y)) => x.cmp(&y),
        (Some(x), None) => cmp_i_f(x, b.as_f64().unwrap()),
        (None, Some(y)) => cmp_i_f(y, a.as_f64().unwrap()).reverse(),
        (None, None) => {
            let (x, y) = (a.as_f64().unwrap(), b.as_f64().unwrap());
            x.partial_cmp(&y).unwrap_or_else(|| x.total_cmp(&y))
        }
    }
}

fn tag(b: &Bson) -> u8 { if is_num(b) { 0x10 } else { b.element_type() as u8 } }

/// total order used by comparison operators and sorting
pub fn vcmp(a: &Bson, b: &Bson) -> Ordering {
    if is_num(a) && is_num(b) { return cmp_num(a, b); }
    let (ta, tb) = (tag(a), tag(b));
    if ta != tb { return ta.cmp(&tb); }
    match (a, b) {
        (Bson::String(x), Bson::String(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Bson::Boolean(x), Bson::Boolean(y)) => x.cmp(y),
        (Bson::DateTime(x), Bson::DateTime(y)) => x.timestamp_millis().cmp(&y.timestamp_millis()),
        (Bson::ObjectId(x), Bson::ObjectId(y)) => x.bytes().cmp(&y.bytes()),
        (Bson::Binary(x), Bson::Binary(y)) => x.bytes.cmp(&y.bytes),
        (Bson::Timestamp(x), Bson::Timestamp(y)) => (x.time, x.increment).cmp(&(y.time, y.increment)),
        (Bson::Symbol(x), Bson::Symbol(y)) => x.cmp(y),
        (Bson::Array(x), Bson::Array(y)) => {
            for (p, q) in x.iter().zip(y) { let o = vcmp(p, q); if o != Ordering::Equal { return o; } }
            x.len().cmp(&y.len())
        }
        (Bson::Document(x), Bson::Document(y)) => {
            for ((k, p), (l, q)) in x.iter().zip(y) {
                let o = k.cmp(l).then_with(|| vcmp(p, q));
                if o != Ordering::Equal { return o; }
            }
            x.len().cmp(&y.len())
        }
        _ => Ordering::Equal,
    }
}

/// types whose mutual comparison the model defines
pub fn comparable(a: &Bson, b: &Bson) -> bool {
    if tag(a) != tag(b) { return true; }
    match (a, b) {
        (Bson::Decimal128(_), _) | (Bson::RegularExpression(_), _) | (Bson::JavaScriptCode(_), _) | (Bson::JavaScriptCodeWithScope(_), _) | (Bson::DbPointer(_), _) => false,
        _ => true,
    }
}

/// equality used by $in / $nin / $all
pub fn veq(a: &Bson, b: &Bson) -> bool {
    match (a, b) {
        _ if is_num(a) && is_num(b) => cmp_num(a, b) == Ordering::Equal,
        (Bson::Array(x), Bson::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| veq(p, q)),
        (Bson::Document(x), Bson::Document(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && veq(p, q)),
        (Bson::String(x), Bson::Symbol(y)) | (Bson::Symbol(y), Bson::String(x)) => x == y,
        _ => a == b,
    }
}

pub fn path<'a>(d: &'a Document, p: &str) -> Option<&'a Bson> {
    let mut it = p.split('.');
    let mut v = d.get(it.next().unwrap())?;
    for s in it { v = v.as_document()?.get(s)?; }
    Some(v)
}

// ---------------------------------------------------------------- queries

/// A small regular expression matcher: literals, `.`, `^`, `$`, `|`, groups, `* + ?` and their lazy forms, with the
/// options i, m, s, x, u and U. It answers by the set of positions where a match may end.
#[derive(Clone, Debug)]
enum Rx { Lit(char), Dot, Bol, Eol, Cat(Vec<Rx>), Alt(Vec<Rx>), Rep(Box<Rx>, bool, bool) }

struct RxParser<'a> { p: &'a [char], i: usize, x: bool }
impl RxParser<'_> {
    fn blank(&mut self) {
        if !self.x { return; }
        while let Some(c) = self.p.get(self.i) {
            if c.is_whitespace() { self.i += 1; }
            else if *c == '#' { while self.p.get(self.i).map_or(false, |c| *c != '\n') { self.i += 1; } }
            else { break; }
        }
    }
    fn alt(&mut self) -> R<Rx> {
        let mut v = vec![self.cat()?];
        while self.p.get(self.i) == Some(&'|') { self.i += 1; v.push(self.cat()?); }
        Ok(Rx::Alt(v))
    }
    fn cat(&mut self) -> R<Rx> {
        let mut v: Vec<Rx> = vec![];
        loop {
            self.blank();
            let Some(&c) = self.p.get(self.i) else { break };
            match c {
                '|' | ')' => break,
                '*' | '+' | '?' => {
                    let Some(e) = v.pop() else { return rej("regex syntax") };
                    self.i += 1;
                    self.blank();
                    if self.p.get(self.i) == Some(&'?') { self.i += 1; }
                    v.push(Rx::Rep(Box::new(e), c != '+', c != '?'));
                }
                '(' => {
                    self.i += 1;
                    if self.p.get(self.i) == Some(&'?') { return rej("regex syntax"); }
                    v.push(self.alt()?);
                    if self.p.get(self.i) != Some(&')') { return rej("regex syntax"); }
                    self.i += 1;
                }
                '.' => { self.i += 1; v.push(Rx::Dot); }
                '^' => { self.i += 1; v.push(Rx::Bol); }
                '$' => { self.i += 1; v.push(Rx::Eol); }
                '[' | '{' | '\\' => panic!("the model has no {c}"),
                c => { self.i += 1; v.push(Rx::Lit(c)); }
            }
        }
        Ok(Rx::Cat(v))
    }
}
fn rx_parse(pat: &str, opts: &str) -> R<Rx> {
    let p: Vec<char> = pat.chars().collect();
    let mut q = RxParser { p: &p, i: 0, x: opts.contains('x') };
    let r = q.alt()?;
    if q.i < p.len() { return rej("regex syntax"); }
    Ok(r)
}
fn rx_ends(e: &Rx, o: &str, s: &[char], from: &std::collections::BTreeSet<usize>) -> std::collections::BTreeSet<usize> {
    let keep = |f: &dyn Fn(usize) -> bool| from.iter().copied().filter(|i| f(*i)).collect();
    match e {
        Rx::Lit(c) => from.iter().filter(|i| s.get(**i).map_or(false, |d| d == c || (o.contains('i') && d.to_lowercase().eq(c.to_lowercase())))).map(|i| i + 1).collect(),
        Rx::Dot => from.iter().filter(|i| s.get(**i).map_or(false, |d| *d != '\n' || o.contains('s'))).map(|i| i + 1).collect(),
        Rx::Bol => keep(&|i| i == 0 || (o.contains('m') && s[i - 1] == '\n')),
        Rx::Eol => keep(&|i| i == s.len() || (o.contains('m') && s[i] == '\n')),
        Rx::Cat(v) => v.iter().fold(from.clone(), |f, e| rx_ends(e, o, s, &f)),
        Rx::Alt(v) => v.iter().flat_map(|e| rx_ends(e, o, s, from)).collect(),
        Rx::Rep(e, zero, many) => {
            let mut all = rx_ends(e, o, s, from);
            if *many { loop { let n = rx_ends(e, o, s, &all); let k = all.len(); all.extend(n); if all.len() == k { break; } } }
            if *zero { all.extend(from); }
            all
        }
    }
}
fn re_match(pat: &str, opts: &str, s: &str) -> bool {
    let s: Vec<char> = s.chars().collect();
    let r = rx_parse(pat, opts).expect("validated");
    !rx_ends(&r, opts, &s, &(0..=s.len()).collect()).is_empty()
}

fn re_val(re: &bson::Regex, v: &Bson) -> bool {
    match v {
        Bson::String(s) | Bson::Symbol(s) => re_match(&re.pattern, &re.options, s),
        Bson::Array(a) => a.iter().any(|x| matches!(x, Bson::String(s) | Bson::Symbol(s) if re_match(&re.pattern, &re.options, s))),
        _ => false,
    }
}

fn member(v: &Bson, c: &Bson) -> bool {
    veq(v, c)
        || matches!(v, Bson::Array(a) if a.iter().any(|x| veq(x, c)))
        || matches!(c, Bson::RegularExpression(re) if re_val(re, v))
}

fn list(v: &Bson) -> R<&Vec<Bson>> {
    let a = match v { Bson::Array(a) => a, _ => return rej("operand must be an array") };
    for x in a {
        if let Bson::Document(d) = x {
            if d.keys().next().map_or(false, |k| k.starts_with('$')) { return rej("operator document in list"); }
        }
        if let Bson::RegularExpression(r) = x { check_re(r)?; }
    }
    Ok(a)
}

fn check_re(r: &bson::Regex) -> R<()> {
    if r.options.chars().any(|c| !"imsuUx".contains(c)) { return rej("regex option"); }
    rx_parse(&r.pattern, &r.options).map(|_| ())
}

/// one operator on one field; `neg` under an odd number of $not
fn op1(d: &Document, key: &str, op: &str, val: &Bson, neg: bool) -> R<bool> {
    let f = path(d, key);
    let x = |b: bool| b != neg;
    let cmp = |pred: &dyn Fn(Ordering) -> bool| -> R<bool> { Ok(match f { None => false, Some(v) => x(pred(vcmp(v, val))) }) };
    match op {
        "$eq" => cmp(&|o| o == Ordering::Equal),
        "$ne" => cmp(&|o| o != Ordering::Equal),
        "$gt" => cmp(&|o| o == Ordering::Greater),
        "$gte" => cmp(&|o| o != Ordering::Less),
        "$lt" => cmp(&|o| o == Ordering::Less),
        "$lte" => cmp(&|o| o != Ordering::Greater),
        "$in" => { let l = list(val)?; let v = f.unwrap_or(&Bson::Null); Ok(x(l.iter().any(|c| member(v, c)))) }
        "$nin" => { let l = list(val)?; let v = f.unwrap_or(&Bson::Null); Ok(x(!l.iter().any(|c| member(v, c)))) }
        "$all" => { let l = list(val)?; let v = f.unwrap_or(&Bson::Null); Ok(x(!l.is_empty() && l.iter().all(|c| member(v, c)))) }
        "$size" => {
            let n = match val { Bson::Int32(n) => *n as i64, Bson::Int64(n) => *n, _ => return rej("$size operand") };
            Ok(match f { None => false, Some(v) => x(matches!(v, Bson::Array(a) if a.len() as i64 == n)) })
        }
        "$regex" => {
            let re = match val { Bson::RegularExpression(r) => r, _ => return rej("$regex operand") };
            check_re(re)?;
            Ok(match f { None => false, Some(v) => x(re_val(re, v)) })
        }
        "$not" => match val { Bson::Document(o) => opdoc(d, key, o, !neg), _ => rej("$not operand") },
        _ => rej("unknown query operator"),
    }
}

fn opdoc(d: &Document, key: &str, o: &Document, neg: bool) -> R<bool> {
    if o.is_empty() { return rej("empty operator document"); }
    // NOT (A and B) is (NOT A) or (NOT B)
    let mut acc = !neg;
    for (op, v) in o {
        let b = op1(d, key, op, v, neg)?;
        acc = if neg { acc || b } else { acc && b };
    }
    Ok(acc)
}

pub fn matches(d: &Document, q: &Document) -> R<bool> {
    let mut ok = true;
    for (k, v) in q {
        let b = match k.as_str() {
            "$and" | "$or" => {
                let a = match v { Bson::Array(a) if !a.is_empty() => a, _ => return rej("$and/$or need a non-empty array") };
                let mut acc = k == "$and";
                for x in a {
                    let s = match x { Bson::Document(s) => s, _ => return rej("$and/$or element") };
                    let b = matches(d, s)?;
                    acc = if k == "$and" { acc && b } else { acc || b };
                }
                acc
            }
            _ if k.starts_with('$') => return rej("unknown top-level operator"),
            _ => match v {
                Bson::Document(o) => opdoc(d, k, o, false)?,
                Bson::Array(_) => return rej("array equality"),
                _ => path(d, k).map_or(false, |x| vcmp(x, v) == Ordering::Equal),
            },
        };
        ok = ok && b;
    }
    Ok(ok)
}

// ---------------------------------------------------------------- updates

fn arith(a: &Bson, b: &Bson, mul: bool) -> R<Bson> {
    use Bson::*;
    let f = |x: f64, y: f64| Double(if mul { x * y } else { x + y });
    let big = |x: i64, y: i64| -> R<Bson> { (if mul { x.checked_mul(y) } else { x.checked_add(y) }).map(Int64).ok_or(Reject("overflow".into())) };
    match (a, b) {
        (Int32(x), Int32(y)) => { let r = if mul { *x as i64 * *y as i64 } else { *x as i64 + *y as i64 }; Ok(i32::try_from(r).map(Int32).unwrap_or(Int64(r))) }
        (Int32(x), Int64(y)) => big(*x as i64, *y),
        (Int64(x), Int32(y)) => big(*x, *y as i64),
        (Int64(x), Int64(y)) => big(*x, *y),
        (Double(x), Double(y)) => Ok(f(*x, *y)),
        (Double(x), Int32(y)) => Ok(f(*x, *y as f64)),
        (Double(x), Int64(y)) => Ok(f(*x, *y as f64)),
        (Int32(x), Double(y)) => Ok(f(*x as f64, *y)),
        (Int64(x), Double(y)) => Ok(f(*x as f64, *y)),
        _ => rej("not numeric"),
    }
}

/// static validity of an update document (independent of any document)
pub fn validate_update(u: &Document) -> R<()> {
    for (op, v) in u {
        let fields = match v { Bson::Document(d) => d, _ => return rej("operator value must be a document") };
        match op.as_str() {
            "$inc" | "$set" | "$max" | "$min" | "$mul" | "$unset" | "$push" | "$pop" | "$rename" => {}
            _ => return rej("unknown update operator"),
        }
        for (k, x) in fields {
            if k == "_id" { return rej("_id is immutable"); }
            if op == "$rename" {
                match x { Bson::String(s) if s == "_id" => return rej("_id is immutable"), Bson::String(_) => {}, _ => return rej("$rename target") }
            }
            if op == "$pop" { match x { Bson::Int32(1) | Bson::Int32(-1) | Bson::Int64(1) | Bson::Int64(-1) => {}, _ => return rej("$pop operand") } }
        }
    }
    Ok(())
}

/// returns whether some operator applied
pub fn apply_update(d: &mut Document, u: &Document) -> R<bool> {
    let mut updated = false;
    for (op, v) in u {
        let fields = v.as_document().unwrap();
        for (k, x) in fields {
            let cur = d.get(k).cloned();
            match op.as_str() {
                "$set" => { d.insert(k.clone(), x.clone()); updated = true; }
                "$unset" => { d.remove(k); updated = true; }
                "$inc" => {
                    let nv = match &cur { None => x.clone(), Some(Bson::Null) => return rej("$inc null"), Some(c) => arith(c, x, false)? };
                    d.insert(k.clone(), nv); updated = true;
                }
                "$mul" => {
                    let nv = match &cur {
                        None => match x { Bson::Int32(_) => Bson::Int32(0), Bson::Int64(_) => Bson::Int64(0), Bson::Double(_) => Bson::Double(0.0), _ => return rej("$mul") },
                        Some(c) => arith(c, x, true)?,
                    };
                    d.insert(k.clone(), nv); updated = true;
                }
                "$max" | "$min" => {
                    let want = if op == "$max" { Ordering::Greater } else { Ordering::Less };
                    if cur.as_ref().map_or(true, |c| vcmp(x, c) == want) { d.insert(k.clone(), x.clone()); updated = true; }
                }
                "$push" => {
                    let mut a = match cur { None | Some(Bson::Null) => vec![], Some(Bson::Array(a)) => a, _ => return rej("$push") };
                    a.push(x.clone());
                    d.insert(k.clone(), a); updated = true;
                }
                "$pop" => {
                    let first = matches!(x, Bson::Int32(-1) | Bson::Int64(-1));
                    match cur {
                        None | Some(Bson::Null) => {}
                        Some(Bson::Array(mut a)) => {
                            if !a.is_empty() { if first { a.remove(0); } else { a.pop(); } d.insert(k.clone(), a); updated = true; }
                        }
                        _ => return rej("$pop"),
                    }
                }
                "$rename" => {
                    if let Some(c) = cur { d.remove(k); d.insert(x.as_str().unwrap(), c); updated = true; }
                }
                _ => return rej("unknown"),
            }
        }
    }
    Ok(updated)
}

// ---------------------------------------------------------------- sorting

fn sort_val<'a>(d: &'a Document, k: &str) -> Option<&'a Bson> { d.get(k).or_else(|| path(d, k)) }

/// documents without the field come after the others in ascending order
pub fn sort_cmp(a: &Document, b: &Document, spec: &Document) -> Ordering {
    for (k, dir) in spec {
        let asc = matches!(dir, Bson::Int32(1) | Bson::Int64(1));
        let o = match (sort_val(a, k), sort_val(b, k)) {
            (Some(x), Some(y)) => vcmp(x, y),
            (Some(_), None) => Ordering::Less,
            (None, Some(_)) => Ordering::Greater,
            (None, None) => Ordering::Equal,
        };
        let o = if asc { o } else { o.reverse() };
        if o != Ordering::Equal { return o; }
    }
    Ordering::Equal
}

// ---------------------------------------------------------------- database

pub fn indexable(v: &Bson) -> bool {
    !matches!(v, Bson::Array(_) | Bson::Document(_) | Bson::Binary(_) | Bson::RegularExpression(_) | Bson::JavaScriptCode(_) | Bson::JavaScriptCodeWithScope(_) | Bson::DbPointer(_) | Bson::MaxKey | Bson::MinKey)
}
/// identity of an `_id` / of a value under a unique index: type and value
pub fn idkey(v: &Bson) -> String {
    match v { Bson::Double(d) => format!("D{:016x}", d.to_bits()), _ => format!("{:?}", v) }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct MIndex { pub field: String, pub unique: bool }

#[derive(Clone, Debug, Default)]
pub struct MColl { pub docs: BTreeMap<String, Document>, pub indexes: BTreeMap<String, MIndex> }

impl MColl {
    /// may `doc` (with identity `me`) be stored?
    pub fn admit(&self, doc: &Document, me: &str) -> R<()> {
        for ix in self.indexes.values() {
            if let Some(v) = path(doc, &ix.field) {
                if matches!(v, Bson::Document(_)) { continue; } // embedded documents are not indexed
                if !indexable(v) { return rej("not an indexable value"); }
                if ix.unique && self.docs.iter().any(|(k, d)| k != me && path(d, &ix.field).map_or(false, |w| idkey(w) == idkey(v))) { return rej("duplicate key"); }
            }
        }
        Ok(())
    }
    pub fn insert(&mut self, doc: &Document) -> R<()> {
        let id = doc.get("_id").expect("explicit id");
        if !indexable(id) { return rej("not an id value"); }
        let k = idkey(id);
        if self.docs.contains_key(&k) { return rej("duplicate id"); }
        self.admit(doc, &k)?;
        self.docs.insert(k, doc.clone());
        Ok(())
    }
    pub fn matching(&self, q: &Document) -> R<Vec<String>> {
        let mut v = vec![];
        // validity does not depend on there being a document
        matches(&Document::new(), q)?;
        for (k, d) in &self.docs {
            if id_match(d, q)? { v.push(k.clone()); }
        }
        Ok(v)
    }
    pub fn create_index(&mut self, name: &str, field: &str, unique: bool) -> R<()> {
        if let Some(i) = self.indexes.get(name) { return if *i == (MIndex { field: field.into(), unique }) { Ok(()) } else { rej("the name is taken by another index") }; }
        let mut seen = std::collections::BTreeSet::new();
        for d in self.docs.values() {
            if let Some(v) = path(d, field) {
                if matches!(v, Bson::Document(_)) { continue; }
                if !indexable(v) { return rej("not an indexable value"); }
                if unique && !seen.insert(idkey(v)) { return rej("duplicate key"); }
            }
        }
        self.indexes.insert(name.into(), MIndex { field: field.into(), unique });
        Ok(())
    }
}

/// `{_id: <literal>}` at the top level selects by identity (type and value)
pub fn id_match(d: &Document, q: &Document) -> R<bool> {
    if let Some(v) = q.get("_id") {
        if !matches!(v, Bson::Document(_)) {
            if !indexable(v) { return rej("not an id value"); }
            let mut rest = q.clone();
            rest.remove("_id");
            let m = matches(d, &rest)?;
            return Ok(m && d.get("_id").map_or(false, |i| idkey(i) == idkey(v)));
        }
    }
    matches(d, q)
}
