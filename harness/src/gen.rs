//! Alphabets.
use bson::{doc, oid::ObjectId, spec::BinarySubtype, Binary, Bson, DateTime, Document, Regex, Timestamp};

pub fn oid(n: u8) -> Bson { Bson::ObjectId(ObjectId::from_bytes([n; 12])) }
pub fn re(p: &str, o: &str) -> Bson { Bson::RegularExpression(Regex { pattern: p.into(), options: o.into() }) }
pub fn bin(b: &[u8]) -> Bson { Bson::Binary(Binary { subtype: BinarySubtype::Generic, bytes: b.to_vec() }) }

/// Scalars: boundaries of every ordered BSON type the engine compares.
pub fn scalars() -> Vec<Bson> {
    vec![
        Bson::Null, Bson::Boolean(false), Bson::Boolean(true),
        Bson::Int32(-1), Bson::Int32(0), Bson::Int32(1), Bson::Int32(2), Bson::Int32(i32::MAX), Bson::Int32(i32::MIN),
        Bson::Int64(1), Bson::Int64(0), Bson::Int64(i32::MAX as i64 + 1), Bson::Int64((1 << 53) + 1), Bson::Int64(1 << 53), Bson::Int64(i64::MAX), Bson::Int64(i64::MIN),
        Bson::Double(1.0), Bson::Double(0.0), Bson::Double(-0.0), Bson::Double(1.5), Bson::Double(-1.5), Bson::Double(9007199254740992.0), Bson::Double(9223372036854775807.0), Bson::Double(f64::INFINITY), Bson::Double(f64::NEG_INFINITY),
        Bson::String("".into()), Bson::String("a".into()), Bson::String("ab".into()), Bson::String("b".into()), Bson::String("A".into()), Bson::String("é".into()), Bson::String("1".into()),
        oid(1), oid(2),
        Bson::DateTime(DateTime::from_millis(0)), Bson::DateTime(DateTime::from_millis(1)), Bson::DateTime(DateTime::from_millis(-1)),
    ]
}
/// Values of the less common types and containers.
pub fn exotics() -> Vec<Bson> {
    vec![
        Bson::Timestamp(Timestamp { time: 1, increment: 2 }), Bson::Timestamp(Timestamp { time: 2, increment: 1 }),
        bin(b""), bin(b"a"), bin(b"ab"),
        Bson::Symbol("a".into()), Bson::Undefined, Bson::MinKey, Bson::MaxKey,
        Bson::Array(vec![]), Bson::Array(vec![Bson::Int32(1)]), Bson::Array(vec![Bson::Int32(1), Bson::Int32(2)]), Bson::Array(vec![Bson::Int32(2), Bson::Int32(1)]),
        Bson::Array(vec![Bson::Double(1.0)]), Bson::Array(vec![Bson::String("a".into())]), Bson::Array(vec![Bson::Array(vec![Bson::Int32(1)])]), Bson::Array(vec![Bson::Null]),
        Bson::Array(vec![Bson::Document(doc! {"b": 1})]),
        Bson::Document(doc! {}), Bson::Document(doc! {"b": 1}), Bson::Document(doc! {"b": 2}), Bson::Document(doc! {"b": "a"}), Bson::Document(doc! {"b": [1]}), Bson::Document(doc! {"b": {"c": 1}}), Bson::Document(doc! {"b": Bson::Null}),
        Bson::Document(doc! {"c": 1, "b": 1}), Bson::Document(doc! {"b": 1i64}),
    ]
}
pub fn uncommon() -> Vec<Bson> {
    vec![
        re("a", ""), Bson::JavaScriptCode("a".into()),
        Bson::JavaScriptCodeWithScope(bson::JavaScriptCodeWithScope { code: "a".into(), scope: doc! {"x": 1} }),
        Bson::Decimal128(bson::Decimal128::from_bytes([1; 16])), Bson::Double(f64::NAN),
    ]
}
pub fn regexes() -> Vec<Bson> { vec![re("a", ""), re("^a$", ""), re("A", "i"), re("b$", ""), re("1", ""), re("n", "")] }

/// one document per value of `a`, plus one without `a`
pub fn wide_docs() -> Vec<Document> {
    let mut v = vec![doc! {"_id": 0}, doc! {"_id": 1, "z": 1}];
    let mut n = 2;
    for x in scalars().into_iter().chain(exotics()) { v.push(doc! {"_id": n, "a": x}); n += 1; }
    v
}

/// operands for counts: powers of two and their neighbours, in both integer types
pub fn wide_counts() -> Vec<Bson> {
    let mut v = vec![Bson::Int32(i32::MAX), Bson::Int32(i32::MAX - 1)];
    for b in [7u32, 8, 15, 16, 24, 31, 32, 33, 40, 48, 53, 62] { for d in [-1i64, 0, 1, 2] { let n = (1i64 << b) + d; v.push(Bson::Int64(n)); if let Ok(m) = i32::try_from(n) { v.push(Bson::Int32(m)); } } }
    for d in 0..3 { v.push(Bson::Int64(i64::MAX - d)); }
    v
}

/// numbers at the edges of each type and of each type's exactness
pub fn numbers() -> Vec<Bson> {
    let mut v = vec![];
    for n in [0i32, 1, -1, 2, 3, -7, 100, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, -(1 << 24) - 1, 46341, 65536, i32::MAX - 1, i32::MAX, i32::MIN + 1, i32::MIN] { v.push(Bson::Int32(n)); }
    for n in [0i64, 1, -1, 2, -7, (1 << 24) + 1, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, (1 << 32) + 1, 3037000500, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, (1 << 53) + 3, i64::MAX - 1, i64::MAX, i64::MIN + 1, i64::MIN] { v.push(Bson::Int64(n)); }
    for n in [0.0f64, -0.0, 1.0, -1.0, 0.1, 0.5, 1.5, 2.5, -2.5, 1e-300, f64::MIN_POSITIVE, 5e-324, 16777217.0, 16777217.5, 2147483648.0, 4503599627370497.5, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, -9007199254740992.0, 9223372036854775807.0, 1e20, 1e308, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] { v.push(Bson::Double(n)); }
    v
}
