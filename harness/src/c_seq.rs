//! Checks made of exhaustive operation sequences.
use crate::gen::*;
use crate::rec::*;
use crate::seq::*;
use crate::util::*;
use bson::{doc, Bson};
use serde_json::json;

fn def(id: &'static str, rule: &'static str, run: fn(&mut Rec)) -> CheckDef {
    CheckDef { id, level: "model_checking", rule, assumptions: &[], run, preload: None, workers: 8, hang_s: 60 }
}
pub fn register(v: &mut Vec<CheckDef>) {
    v.push(def("P06", "a sequence is non-trivial when at least one statement is rejected; distinct = distinct (sequence) with a rejection", |r| { failed_statements(r); crate::c_scale::failures(r); }));
    v.push(def("P10", "distinct final states and sequences with an index present", |r| { index_consistency(r); crate::c_scale::indexes(r, false); }));
    v.push(def("P11", "distinct sequences with at least one index operation", |r| { index_ddl(r); crate::c_scale::indexes(r, true); }));
    v.push(def("P21", "distinct sequences", |r| { collections(r); crate::c_scale::collections(r, false); }));
}

/// where the sequence is sent
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Auto, Txn, TxnThenCommit }

pub struct Plan<'a> { pub ops: &'a [Op], pub depth: usize, pub colls: &'a [&'static str], pub fields: Vec<(&'static str, Vec<Bson>)>, pub modes: &'a [Mode], pub names: bool, pub setup: Vec<Op>, pub tag: &'static str }

pub fn run_plan(rec: &mut Rec, plan: &Plan) {
    let mut s = Scratch::with_sentinel(&rec.scratch);
    let mut used = 0u64;
    for mode in plan.modes {
        let mut todo: Vec<Vec<usize>> = vec![];
        sequences(plan.ops.len(), plan.depth, |q| {
            // a no-op repetition adds nothing, everything else is kept
            if rec.next() { todo.push(q.to_vec()); } else { todo.push(vec![]); }
        });
        // `next` was consulted for the whole enumeration; execute this worker's share
        for (i, q) in todo.iter().enumerate() {
            if q.is_empty() { continue; }
            let _ = i;
            used += 1;
            if used % 150 == 0 { s = Scratch::with_sentinel(&rec.scratch); }
            let text = || format!("{}/{:?}: {}", plan.tag, mode, q.iter().map(|x| plan.ops[*x].text()).collect::<Vec<_>>().join("; "));
            rec.begin_at(case_no(rec, *mode, plan, i), text);
            run_sequence(rec, plan, *mode, q, &mut s);
        }
    }
}
fn case_no(rec: &Rec, _m: Mode, plan: &Plan, i: usize) -> u64 {
    let total = (plan.ops.len() as u64).pow(plan.depth as u32);
    rec.position() - total + i as u64
}

fn run_sequence(rec: &mut Rec, plan: &Plan, mode: Mode, q: &[usize], s: &mut Scratch) {
    let prefix = fresh_name("c");
    let mut m = MDb::default();
    let seq: Vec<&Op> = plan.setup.iter().chain(q.iter().map(|i| &plan.ops[*i])).collect();
    let mut rejected = 0;
    let mut fail = None;
    let txn = if mode == Mode::Auto { None } else { Some(s.db().start_transaction().unwrap()) };
    let mut nth = 0usize;
    for op in seq {
        if let Op::Reopen = op { if mode == Mode::Auto { s.reopen(); } }
        let t = Target { db: s.db(), txn: txn.as_ref(), prefix: prefix.clone() };
        if matches!(model_step(&m, op)[0].1, Expect::Rejected(_)) { rejected += 1; }
        nth += 1;
        rec.count("transitions", 1);
        match step(&t, &m, op, plan.colls) { Ok(n) => m = n, Err(e) => { fail = Some(e); break; } }
    }
    if fail.is_none() {
        let t = Target { db: s.db(), txn: txn.as_ref(), prefix: prefix.clone() };
        if let Err(e) = probe(&t, &m, plan.colls, &plan.fields) { fail = Some(e); }
        if fail.is_none() && plan.names && mode != Mode::Txn {
            if mode == Mode::TxnThenCommit { if let Out::Err(e) = call(|| txn.as_ref().unwrap().commit()) { fail = Some(json!({"commit": e})); } }
            if fail.is_none() { if let Err(e) = names_agree(s, &m, &prefix) { fail = Some(e); } }
        } else if fail.is_none() && mode == Mode::TxnThenCommit {
            if let Out::Err(e) = call(|| txn.as_ref().unwrap().commit()) { fail = Some(json!({"commit": e})); }
        }
        if fail.is_none() && mode == Mode::TxnThenCommit {
            let t = Target { db: s.db(), txn: None, prefix: prefix.clone() };
            match t.state(plan.colls) {
                Ok(st) if st == nonempty(mstate(&m)) => {}
                x => fail = Some(json!({"after_commit": format!("{x:?}"), "expected": format!("{:?}", mstate(&m))})),
            }
            if fail.is_none() { if let Err(e) = probe(&t, &m, plan.colls, &plan.fields) { fail = Some(json!({"after_commit": e})); } }
        }
    }
    if let Some(t) = txn { if mode == Mode::Txn || fail.is_some() { let _ = call(|| t.rollback()); } }
    let shape: Vec<String> = q.iter().map(|i| plan.ops[*i].text()).collect();
    rec.eval(Some(h64(&(format!("{mode:?}"), rejected > 0, &shape))));
    rec.state(h64(&format!("{:?}", m)));
    rec.count("traces_validated_against_impl", 1);
    if rejected > 0 { rec.count("sequences_with_a_rejection", 1); }
    if let Some(mut e) = fail {
        // report the shortest failing prefix
        let pre: Vec<String> = shape.into_iter().take(nth.saturating_sub(plan.setup.len())).collect();
        e["history"] = json!(pre);
        e["mode"] = json!(format!("{mode:?}"));
        rec.viol(format!("{}/{:?}: {}", plan.tag, mode, pre.join("; ")), e);
    }
}

fn names_agree(s: &Scratch, m: &MDb, prefix: &str) -> Result<(), serde_json::Value> {
    match call(|| s.db().list_collection_names()) {
        Out::Ok(v) => {
            let mut got: Vec<String> = v.into_iter().filter(|n| n.starts_with(prefix)).map(|n| n[prefix.len()..].to_string()).collect();
            got.sort();
            let want: Vec<String> = m.colls.keys().cloned().collect();
            if got == want { Ok(()) } else { Err(json!({"list_collection_names": got, "expected": want})) }
        }
        x => Err(json!({"list_collection_names": format!("{x:?}")})),
    }
}

fn index_probe() -> Vec<(&'static str, Vec<Bson>)> { vec![("a", vec![Bson::Int32(1), Bson::Int32(2), Bson::Null, Bson::String("x".into())]), ("b", vec![Bson::Int32(1), Bson::Int32(2)])] }

fn index_consistency(rec: &mut Rec) {
    quiet_panics();
    for (tag, unique) in [("plain", false), ("unique", true)] {
        let ops = vec![
            Op::Ins("k", doc! {"_id": 1, "a": 1, "b": 1}),
            Op::Ins("k", doc! {"_id": 2, "a": 1}),
            Op::Ins("k", doc! {"_id": 1, "b": 2}),
            Op::InsMany("k", vec![doc! {"_id": 3, "a": 2}, doc! {"_id": 4, "a": "x"}]),
            Op::Upd { c: "k", many: false, q: doc! {"_id": 1}, u: doc! {"$set": {"a": 2}} },
            Op::Upd { c: "k", many: true, q: doc! {}, u: doc! {"$inc": {"b": 1}} },
            Op::Upd { c: "k", many: true, q: doc! {"a": 2}, u: doc! {"$set": {"a": 1}} },
            Op::Upd { c: "k", many: true, q: doc! {"_id": {"$lte": 2}}, u: doc! {"$unset": {"a": ""}} },
            Op::Upd { c: "k", many: false, q: doc! {"_id": 2}, u: doc! {"$rename": {"a": "b"}} },
            Op::Del { c: "k", many: false, q: doc! {"_id": 1} },
            Op::Del { c: "k", many: true, q: doc! {"a": 1} },
            Op::Del { c: "k", many: true, q: doc! {} },
        ];
        let setup = vec![Op::Idx { c: "k", field: "a", name: None, unique }, Op::Idx { c: "k", field: "b", name: None, unique: false }];
        let depth = if rec.thorough() { 5 } else { 4 };
        run_plan(rec, &Plan { ops: &ops, depth, colls: &["k"], fields: index_probe(), modes: if rec.thorough() { &[Mode::Auto, Mode::TxnThenCommit] } else { &[Mode::Auto] }, names: false, setup, tag });
        run_plan(rec, &Plan { ops: &ops, depth: 3, colls: &["k"], fields: index_probe(), modes: &[Mode::Txn, Mode::TxnThenCommit], names: false,
            setup: vec![Op::Idx { c: "k", field: "a", name: None, unique }, Op::Idx { c: "k", field: "b", name: None, unique: false }, Op::Ins("k", doc! {"_id": 7, "a": 2, "b": 1})], tag });
    }
    nested_indexes(rec);
    value_indexes(rec);
}

/// indexes on fields of embedded documents, and on both ends of a field
fn nested_indexes(rec: &mut Rec) {
    for unique in [false, true] {
        let ops = vec![
            Op::Ins("k", doc! {"_id": 1, "n": {"x": 1, "y": {"z": 1}}}),
            Op::Ins("k", doc! {"_id": 2, "n": {"x": 2}}),
            Op::Ins("k", doc! {"_id": 3, "n": 1, "x": 1}),
            Op::InsMany("k", vec![doc! {"_id": 4, "n": {"y": {"z": 2}}}, doc! {"_id": 5}]),
            Op::Upd { c: "k", many: false, q: doc! {"_id": 1}, u: doc! {"$set": {"n": {"x": 2}}} },
            Op::Upd { c: "k", many: true, q: doc! {"_id": {"$lte": 3}}, u: doc! {"$set": {"n": {"y": {"z": 1}}}} },
            Op::Upd { c: "k", many: true, q: doc! {}, u: doc! {"$unset": {"n": ""}} },
            Op::Upd { c: "k", many: false, q: doc! {"_id": 2}, u: doc! {"$set": {"n": 7}} },
            Op::Upd { c: "k", many: false, q: doc! {"_id": 1}, u: doc! {"$rename": {"n": "m"}} },
            Op::Upd { c: "k", many: false, q: doc! {"n.x": 2}, u: doc! {"$set": {"n": {"x": 1}}} },
            Op::Upsert { c: "k", id: Bson::Int32(6), u: doc! {"$set": {"n": {"x": 2, "y": {"z": 2}}}} },
            Op::Del { c: "k", many: false, q: doc! {"_id": 1} },
            Op::Del { c: "k", many: true, q: doc! {"n.x": 1} },
            Op::Del { c: "k", many: true, q: doc! {} },
        ];
        let ints = |v: &[i32]| v.iter().map(|x| Bson::Int32(*x)).collect::<Vec<_>>();
        let fields = || vec![("n.x", ints(&[1, 2])), ("n.y.z", ints(&[1, 2])), ("n", ints(&[1, 7])), ("x", ints(&[1])), ("m.x", ints(&[1, 2]))];
        let setup = vec![Op::Idx { c: "k", field: "n.x", name: None, unique }, Op::Idx { c: "k", field: "n.y.z", name: None, unique: false }, Op::Idx { c: "k", field: "x", name: None, unique: false }, Op::Idx { c: "k", field: "m.x", name: Some("first"), unique: false }];
        let depth = if rec.thorough() { 4 } else { 3 };
        run_plan(rec, &Plan { ops: &ops, depth, colls: &["k"], fields: fields(), modes: &[Mode::Auto], names: false, setup: setup.clone(), tag: "nested" });
        run_plan(rec, &Plan { ops: &ops, depth: depth - 1, colls: &["k"], fields: fields(), modes: &[Mode::Txn, Mode::TxnThenCommit], names: false, setup, tag: "nested" });
    }
}

/// indexed values of every type which can be indexed, equal numbers of different types among them
fn value_indexes(rec: &mut Rec) {
    let mut vals = vec![
        Bson::Int32(1), Bson::Int64(1), Bson::Double(1.0), Bson::Double(0.0), Bson::Double(-0.0), Bson::Int32(-1), Bson::Double(1.5), Bson::Int64(i64::MIN), Bson::Double(f64::NAN), Bson::Double(9223372036854775808.0),
        Bson::Null, Bson::Undefined, Bson::Boolean(false), Bson::Boolean(true), Bson::String("".into()), Bson::String("1".into()), Bson::String("a\0b".into()), Bson::String("a".into()), Bson::Symbol("a".into()), oid(1),
        Bson::DateTime(bson::DateTime::from_millis(-1)), Bson::Timestamp(bson::Timestamp { time: 1, increment: 0x10001 }), Bson::Decimal128(bson::Decimal128::from_bytes([1; 16])),
        Bson::Array(vec![Bson::Int32(1)]), Bson::Document(doc! {"x": 1}),
    ];
    if !rec.thorough() { vals.retain(|v| !matches!(v, Bson::Double(d) if *d == 1.5) && !matches!(v, Bson::Int32(-1))); }
    for unique in [false, true] {
        let mut ops = vec![];
        for v in &vals {
            ops.push(Op::Ins("k", doc! {"_id": 1, "a": v.clone()}));
            ops.push(Op::Ins("k", doc! {"_id": 2, "a": v.clone()}));
            ops.push(Op::Upd { c: "k", many: false, q: doc! {"_id": 1}, u: doc! {"$set": {"a": v.clone()}} });
        }
        ops.push(Op::Upd { c: "k", many: true, q: doc! {"a": 1}, u: doc! {"$unset": {"a": ""}} });
        ops.push(Op::Del { c: "k", many: false, q: doc! {"_id": 1} });
        ops.push(Op::Del { c: "k", many: true, q: doc! {"a": Bson::Null} });
        ops.push(Op::Del { c: "k", many: true, q: doc! {"a": 0} });
        let setup = vec![Op::Idx { c: "k", field: "a", name: None, unique }, Op::Ins("k", doc! {"_id": 7, "a": 1})];
        run_plan(rec, &Plan { ops: &ops, depth: 2, colls: &["k"], fields: vec![("a", vals.iter().filter(|v| !matches!(v, Bson::Document(_) | Bson::Array(_))).cloned().collect())], modes: if rec.thorough() { &[Mode::Auto, Mode::Txn, Mode::TxnThenCommit] } else { &[Mode::Auto] }, names: false, setup, tag: if unique { "values, unique" } else { "values" } });
    }
}

fn index_ddl(rec: &mut Rec) {
    quiet_panics();
    let ops = vec![
        Op::Ins("k", doc! {"_id": 1, "a": 1, "b": 1}),
        Op::Ins("k", doc! {"_id": 2, "a": 1, "n": {"x": 1}}),
        Op::Idx { c: "k", field: "a", name: None, unique: false },
        Op::Idx { c: "k", field: "a", name: Some("u"), unique: true },
        Op::Idx { c: "k", field: "n.x", name: None, unique: true },
        Op::DropIdx("k", "a_1"),
        Op::DropIdx("k", "u"),
        Op::DropIdx("k", "nope"),
        Op::Upd { c: "k", many: false, q: doc! {"_id": 1}, u: doc! {"$set": {"a": 2}} },
        Op::Upd { c: "k", many: false, q: doc! {"_id": 1}, u: doc! {"$set": {"n": {"x": 1}}} },
        Op::Del { c: "k", many: false, q: doc! {"_id": 1} },
        Op::DropColl("k"),
    ];
    let depth = if rec.thorough() { 5 } else { 4 };
    let fields = vec![("a", vec![Bson::Int32(1), Bson::Int32(2)]), ("n.x", vec![Bson::Int32(1)])];
    // definitions which have a name in common, given or derived from the field
    let names = vec![
        Op::InsMany("k", vec![doc! {"_id": 1, "a": 1, "n": {"x": 1}, "n_x": 1}, doc! {"_id": 2, "a": 1, "n": {"x": 1}, "n_x": 2}]),
        Op::Del { c: "k", many: false, q: doc! {"_id": 1} },
        Op::Idx { c: "k", field: "a", name: None, unique: false },
        Op::Idx { c: "k", field: "a", name: None, unique: true },
        Op::Idx { c: "k", field: "n.x", name: None, unique: true },
        Op::Idx { c: "k", field: "n_x", name: None, unique: true },
        Op::Idx { c: "k", field: "n_x", name: None, unique: false },
        Op::Idx { c: "k", field: "n_x", name: Some("a_1"), unique: false },
        Op::Idx { c: "k", field: "a", name: Some("n_x_1"), unique: true },
        Op::DropIdx("k", "a_1"),
        Op::DropIdx("k", "n_x_1"),
        Op::DropColl("k"),
    ];
    let nf = vec![("a", vec![Bson::Int32(1)]), ("n.x", vec![Bson::Int32(1)]), ("n_x", vec![Bson::Int32(1), Bson::Int32(2)])];
    run_plan(rec, &Plan { ops: &names, depth: depth - 1, colls: &["k"], fields: nf.clone(), modes: &[Mode::Auto], names: true, setup: vec![], tag: "index names" });
    run_plan(rec, &Plan { ops: &names, depth: 3, colls: &["k"], fields: nf, modes: &[Mode::Txn, Mode::TxnThenCommit], names: false, setup: vec![Op::Ins("k", doc! {"_id": 5, "a": 5, "n": {"x": 5}, "n_x": 5})], tag: "index names" });
    run_plan(rec, &Plan { ops: &ops, depth, colls: &["k"], fields: fields.clone(), modes: &[Mode::Auto], names: true, setup: vec![], tag: "ddl" });
    run_plan(rec, &Plan { ops: &ops, depth: 3, colls: &["k"], fields, modes: &[Mode::Txn, Mode::TxnThenCommit], names: false, setup: vec![Op::Ins("k", doc! {"_id": 5, "a": 5})], tag: "ddl" });
}

fn failed_statements(rec: &mut Rec) {
    quiet_panics();
    // every statement here can fail half-way through in some state
    let ops = vec![
        Op::Ins("k", doc! {"_id": 1, "a": 1, "s": "x"}),
        Op::Ins("k", doc! {"_id": 2, "a": 2, "s": 5}),
        Op::InsMany("k", vec![doc! {"_id": 3, "a": 3, "s": 1}, doc! {"_id": 1, "a": 9}]),
        Op::InsMany("k", vec![doc! {"_id": 4, "a": 4}, doc! {"_id": 5, "a": 4}]),
        Op::InsMany("k", vec![doc! {"_id": 6, "a": 6}, doc! {"_id": {"x": 1}, "a": 7}]),
        Op::Upd { c: "k", many: true, q: doc! {}, u: doc! {"$inc": {"s": 1}} },
        Op::Upd { c: "k", many: true, q: doc! {}, u: doc! {"$set": {"a": 3}} },
        Op::Upd { c: "k", many: true, q: doc! {}, u: doc! {"$set": {"a": [1]}} },
        Op::Upd { c: "k", many: false, q: doc! {"_id": 2}, u: doc! {"$set": {"a": 1}} },
        Op::Idx { c: "k", field: "a", name: None, unique: true },
        Op::Idx { c: "k", field: "s", name: None, unique: false },
        Op::Ins("k", doc! {"_id": 8, "a": 8, "s": [1]}),
        Op::Ins("j", doc! {"_id": [1]}),
    ];
    let fields = || vec![("a", vec![Bson::Int32(1), Bson::Int32(2), Bson::Int32(3), Bson::Int32(4)]), ("s", vec![Bson::Int32(1), Bson::Int32(5), Bson::String("x".into())])];
    let depth = if rec.thorough() { 5 } else { 4 };
    run_plan(rec, &Plan { ops: &ops, depth: depth - 1, colls: &["k", "j"], fields: fields(), modes: &[Mode::Auto], names: true, setup: vec![], tag: "fail" });
    run_plan(rec, &Plan { ops: &ops, depth, colls: &["k", "j"], fields: fields(), modes: &[Mode::Txn], names: false, setup: vec![], tag: "fail" });
    run_plan(rec, &Plan { ops: &ops, depth: depth - 1, colls: &["k", "j"], fields: fields(), modes: &[Mode::TxnThenCommit], names: true,
        setup: vec![Op::Idx { c: "k", field: "a", name: None, unique: true }, Op::Ins("k", doc! {"_id": 1, "a": 1, "s": "x"})], tag: "fail" });
}

fn collections(rec: &mut Rec) {
    quiet_panics();
    // names that are prefixes of each other, and look like index keys
    let ops = vec![
        Op::Ins("a", doc! {"_id": 1, "a": 1}),
        Op::Ins("aa", doc! {"_id": 1, "a": 1}),
        Op::Ins("a", doc! {"_id": "x", "a": 2}),
        Op::CreateColl("a"),
        Op::CreateColl("aa"),
        Op::Idx { c: "a", field: "a", name: None, unique: true },
        Op::Idx { c: "aa", field: "a", name: None, unique: true },
        Op::DropColl("a"),
        Op::DropColl("aa"),
        Op::Del { c: "a", many: true, q: doc! {} },
        Op::Del { c: "aa", many: true, q: doc! {"a": 1} },
        Op::Upd { c: "aa", many: true, q: doc! {"a": 1}, u: doc! {"$set": {"a": 2}} },
    ];
    let fields = || vec![("a", vec![Bson::Int32(1), Bson::Int32(2)])];
    let depth = if rec.thorough() { 5 } else { 4 };
    run_plan(rec, &Plan { ops: &ops, depth, colls: &["a", "aa"], fields: fields(), modes: &[Mode::Auto], names: true, setup: vec![], tag: "names" });
    let ops2: Vec<Op> = ops.iter().filter(|o| !matches!(o, Op::CreateColl(_))).cloned().collect();
    run_plan(rec, &Plan { ops: &ops2, depth: 3, colls: &["a", "aa"], fields: fields(), modes: &[Mode::Txn, Mode::TxnThenCommit], names: true, setup: vec![], tag: "names" });
    // unusual names, including separators of the key encoding
    let odd = ["a", "a\u{0}", "\u{0}", "a\u{0}\u{2}b", "é", " ", "a b", "I", "TABLE_META"];
    for x in odd { for y in odd {
        if x == y || !rec.next() { continue; }
        rec.begin(|| format!("odd names {x:?} {y:?}"));
        let s = Scratch::new(&rec.scratch);
        let (cx, cy) = (Coll::auto(s.db(), x), Coll::auto(s.db(), y));
        let d = doc! {"_id": "b", "v": x};
        let e = doc! {"_id": "\u{0}", "v": y};
        let r = (cx.insert(&d), cy.insert(&e), cx.create_index("v", None, true), cy.create_index("v", None, true));
        rec.eval(Some(h64(&(x, y))));
        if !(r.0.is_ok() && r.1.is_ok() && r.2.is_ok() && r.3.is_ok()) { rec.viol(format!("odd names {x:?} {y:?}"), json!({"create": format!("{r:?}")})); continue; }
        let look = (cx.all(), cy.all(), cx.find(&doc! {"v": x}), cy.find(&doc! {"v": y}), cx.find(&doc! {"v": y}), call(|| s.db().list_collection_names()));
        let mut names = vec![x.to_string(), y.to_string()];
        names.sort();
        let mut ln = look.5.clone().ok().unwrap_or_default();
        ln.sort();
        let good = look.0 == Out::Ok(vec![d.clone()]) && look.1 == Out::Ok(vec![e.clone()]) && look.2 == Out::Ok(vec![d.clone()]) && look.3 == Out::Ok(vec![e.clone()]) && look.4 == Out::Ok(vec![]) && ln == names;
        if !good { rec.viol(format!("odd names {x:?} {y:?}"), json!({"look": format!("{look:?}")})); continue; }
        let dr = cx.drop_coll();
        let after = (cx.all(), cy.all(), cy.find(&doc! {"v": y}), call(|| s.db().list_collection_names()));
        if !dr.is_ok() || after != (Out::Ok(vec![]), Out::Ok(vec![e.clone()]), Out::Ok(vec![e.clone()]), Out::Ok(vec![y.to_string()])) { rec.viol(format!("odd names drop {x:?} {y:?}"), json!({"after": format!("{after:?}")})); }
    } }
    // names that must be refused everywhere
    for bad in ["", "a.b", "$a", "a$", "a\n", "\t", "a\r"] {
        if !rec.next() { continue; }
        rec.begin(|| format!("bad name {bad:?}"));
        let s = Scratch::new(&rec.scratch);
        let c = Coll::auto(s.db(), bad);
        let r = [c.insert(&doc! {"_id": 1}).is_err(), call(|| s.db().create_collection(bad)).is_err(), c.create_index("a", None, false).is_err()];
        rec.eval(Some(h64(bad)));
        if r != [true; 3] { rec.viol(format!("bad name {bad:?}"), json!({"insert/create_collection/create_index rejected": format!("{r:?}")})); }
        let n = call(|| s.db().list_collection_names());
        if n != Out::Ok(vec![]) { rec.viol(format!("bad name listed {bad:?}"), json!({"names": format!("{n:?}")})); }
    }
    let _ = oid(1);
}
