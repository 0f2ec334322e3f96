//! The line diff (P32).
use crate::rec::*;
use serde_json::{json, Value};

pub fn register(v: &mut Vec<CheckDef>) {
    v.push(CheckDef { id: "P32", level: "model_checking", rule: "distinct pairs of texts", assumptions: &["a difference is read as the text which the crate prints"], run: diffs, preload: None, workers: 8, hang_s: 60 });
}

fn texts(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut v = vec![];
    for n in 1..=max { crate::seq::sequences(alphabet.len(), n, |q| v.push(q.iter().map(|i| alphabet[*i]).collect::<Vec<_>>().join("\n"))); }
    v
}
fn diffs(rec: &mut Rec) {
    let quick = rec.quick();
    let odd = ["", "a", "+ a", "- a", "@@ 1", "Preserve", "\u{1b}[0m", "é", " a"];
    let mut fams = vec![texts(&["a", "b", "c"], if quick { 5 } else { 6 }), texts(&["a", "b"], if quick { 8 } else { 9 }), texts(&odd, if quick { 2 } else { 3 }), vec![]];
    // a few longer ones: every block of lines moved, doubled or removed
    let long: Vec<String> = (0..12).map(|i| format!("line {i}")).collect();
    for i in 0..12 { for j in i + 1..=12 { for k in 0..3 { let mut l = long.clone(); let b: Vec<String> = l.drain(i..j).collect(); match k { 0 => {} 1 => l.extend(b), _ => { for x in b.iter().rev() { l.insert(i, x.clone()); l.insert(i, x.clone()); } } } fams[3].push(l.join("\n")); } } }
    for f in &fams { for a in f { for b in f { one(rec, a, b, "\n"); } } }
    // lines which are nearly alike
    let alike = ["a", "a ", " a", "a\r", "A", "a\t", "a\0", "aa", "á", "a\u{301}", "\u{feff}a", "a\u{2028}", "\u{1b}[32m+ a", "\u{1b}[31m- a\u{1b}[0m"];
    let f = texts(&alike, if quick { 2 } else { 3 });
    for a in &f { for b in &f { one(rec, a, b, "\n"); } }
    // other separators
    for sep in [" ", ",", "ab", "\r\n", "", "é"] {
        let f: Vec<String> = texts(&["a", "b", "", "é"], if quick { 4 } else { 5 }).into_iter().map(|t| t.replace('\n', sep)).collect();
        let f: std::collections::BTreeSet<&String> = f.iter().filter(|t| !t.contains('\n')).collect();
        for a in &f { for b in &f { one(rec, a, b, sep); } }
    }
    // texts of every length about the powers of two: changed wholly, at one end, in the middle, against nothing
    let mut lens = vec![];
    for k in 4..if quick { 10 } else { 12 } { for d in [-1i32, 0, 1] { lens.push(((1 << k) + d) as usize); } }
    for n in lens {
        let line = |t: &str, i: usize| format!("{t} {i}");
        let base: Vec<String> = (0..n).map(|i| line("line", i)).collect();
        let mut others: Vec<Vec<String>> = vec![vec![], (0..n).map(|i| line("other", i)).collect(), (0..n).map(|i| line(if i % 2 == 0 { "line" } else { "other" }, i)).collect()];
        for at in [0, 1, n / 2, n - 2, n - 1] { let mut o = base.clone(); o[at] = "changed".into(); others.push(o.clone()); o.remove(at); others.push(o.clone()); o.insert(at, "x".into()); o.insert(at, base[at].clone()); others.push(o); }
        for k in [n / 2, n - 1, n] { let mut o = base.clone(); o.rotate_left(k % n); others.push(o); let mut o = base.clone(); o.extend(base[..k].iter().cloned()); others.push(o); }
        let t = base.join("\n");
        for o in &others { let o = o.join("\n"); one(rec, &t, &o, "\n"); one(rec, &o, &t, "\n"); }
    }
}
fn one(rec: &mut Rec, a: &str, b: &str, sep: &str) {
    if !rec.next() { return; }
    let short = |t: &str| if t.len() > 200 { format!("[{} bytes, hash {:x}] {:?}...", t.len(), h64(&t.to_string()), t.chars().take(40).collect::<String>()) } else { format!("{t:?}") };
    let name = format!("{} -> {}{}", short(a), short(b), if sep == "\n" { String::new() } else { format!(" by {sep:?}") });
    rec.begin(|| name.clone());
    rec.count("transitions", 1);
    let r = std::panic::catch_unwind(|| check(a, b, sep)).unwrap_or_else(|_| Err(json!({"problem": "panic"})));
    rec.eval(Some(h64(&name)));
    match r { Ok(n) => { rec.state(h64(&(n, a.len(), b.len()))); rec.count("traces_validated_against_impl", 1) } Err(e) => rec.viol(name, e) }
}
fn distance(a: &[&str], b: &[&str]) -> usize {
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for i in 0..a.len() {
        let mut prev = row[0];
        row[0] = i + 1;
        for j in 0..b.len() { let old = row[j + 1]; row[j + 1] = (prev + (a[i] != b[j]) as usize).min(old + 1).min(row[j] + 1); prev = old; }
    }
    row[b.len()]
}
/// applies what is printed to the first text
fn check(a: &str, b: &str, sep: &str) -> Result<usize, Value> {
    let d = if sep == "\n" { polodb_line_diff::line_diff(a, b) } else { polodb_line_diff::diff(a, b, sep) };
    let shown = polodb_line_diff::format_differences(&d);
    let (al, bl): (Vec<&str>, Vec<&str>) = (a.split(sep).collect(), b.split(sep).collect());
    let bad = |what: &str| Err(json!({"difference": shown.chars().take(2000).collect::<String>(), "problem": what}));
    if (a == b) != d.is_empty() { return bad("equal texts have no difference, others do"); }
    let (mut i, mut out, mut changed): (usize, Vec<&str>, usize) = (0, vec![], 0);
    let lines: Vec<&str> = if shown.is_empty() { vec![] } else { shown.strip_suffix('\n').unwrap_or(&shown).split('\n').collect() };
    let mut p = 0;
    while p < lines.len() {
        let Some(at) = lines[p].strip_prefix("@@ ").and_then(|s| s.parse::<usize>().ok()) else { return bad("not a position") };
        p += 1;
        let (mut plus, mut minus): (Vec<&str>, Vec<&str>) = (vec![], vec![]);
        while p < lines.len() {
            let cut = |s: &'static str| lines[p].strip_prefix(s).and_then(|l| l.strip_suffix("\u{1b}[0m"));
            if let Some(l) = cut("\u{1b}[32m+ ") { plus.push(l); } else if let Some(l) = cut("\u{1b}[31m- ") { minus.push(l); } else { break; }
            p += 1;
        }
        if plus.is_empty() && minus.is_empty() || at == 0 { return bad("an empty difference"); }
        // the position is one in the second text, and in the first for lines which are only removed
        while if plus.is_empty() { i + 1 < at } else { out.len() + 1 < at } { if i >= al.len() { return bad("a position beyond the text"); } out.push(al[i]); i += 1; }
        if plus.is_empty() && i + 1 != at || !plus.is_empty() && out.len() + 1 != at { return bad("a position before the last difference"); }
        for m in &minus { if al.get(i) != Some(m) { return bad("a removed line is not there"); } i += 1; }
        changed += plus.len().max(minus.len());
        out.extend(plus);
    }
    out.extend(&al[i.min(al.len())..]);
    if out != bl { return Err(json!({"difference": shown, "applied": out.join(sep)})); }
    let least = distance(&al, &bl);
    if changed != least { return Err(json!({"difference": shown, "changed lines": changed, "least": least})); }
    Ok(changed)
}
