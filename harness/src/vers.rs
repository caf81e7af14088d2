//! V01 version order, V02 version ranges.
use crate::mon::{Mon, Rng, h};
use rez_next_version::{Version, VersionRange};
use serde_json::json;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};

// ---------------------------------------------------------------- the model
/// Independent model of a version: per token a list of segments.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Seg {
    A(String),          // alphabetic sorts before numeric
    N(usize, String),   // digits without leading zeros: (length, text)
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MV {
    Empty,
    Toks(Vec<Vec<Seg>>),
    Inf,
}
fn segs(t: &str) -> Vec<Seg> {
    let b: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let d = b[i].is_ascii_digit();
        let mut j = i;
        while j < b.len() && b[j].is_ascii_digit() == d {
            j += 1;
        }
        let s: String = b[i..j].iter().collect();
        if d {
            let z = s.trim_start_matches('0').to_string();
            out.push(Seg::N(z.len(), z));
        } else {
            out.push(Seg::A(s));
        }
        i = j;
    }
    out
}
/// `text` must be a version text the generator built (it is never used on arbitrary input)
pub fn model(text: &str) -> MV {
    let t = text.trim();
    match t {
        "" | "epsilon" => return MV::Empty,
        "inf" => return MV::Inf,
        _ => {}
    }
    let mut toks: Vec<Vec<Seg>> = t.split(['.', '-', '+']).map(segs).collect();
    // missing tokens count as 0: trailing zeros carry no information
    let zero = segs("0");
    while toks.last() == Some(&zero) {
        toks.pop();
    }
    MV::Toks(toks)
}
pub fn mcmp(a: &MV, b: &MV) -> Ordering {
    match (a, b) {
        (MV::Toks(x), MV::Toks(y)) => {
            let zero = segs("0");
            for i in 0..x.len().max(y.len()) {
                let p = x.get(i).unwrap_or(&zero);
                let q = y.get(i).unwrap_or(&zero);
                match p.cmp(q) {
                    Ordering::Equal => {}
                    o => return o,
                }
            }
            Ordering::Equal
        }
        _ => {
            let r = |m: &MV| match m {
                MV::Empty => 0,
                MV::Toks(_) => 1,
                MV::Inf => 2,
            };
            r(a).cmp(&r(b))
        }
    }
}
fn mtokens(text: &str) -> Vec<Vec<Seg>> {
    match text.trim() {
        "" | "epsilon" | "inf" => vec![],
        t => t.split(['.', '-', '+']).map(segs).collect(),
    }
}

const TOK: &[&str] = &[
    "0", "1", "2", "3", "9", "10", "11", "99", "100", "00", "01", "010", "007",
    "2024", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "1000000000000000000000000", "999999999999999999999999",
    "a", "b", "A", "Z", "z", "alpha", "beta", "rc", "dev", "x",
    "a1", "a2", "a10", "a01", "rc1", "rc2", "rc10", "1a", "2a", "10a", "1a1", "a_b", "a1b2", "a1b10", "b1", "0a", "1rc", "1_2", "a_1",
];
/// a token of several alternating segments; "v" and the words the parser refuses are not made
fn gen_token(r: &mut Rng) -> String {
    let mut out = String::new();
    let mut digit = r.chance(1, 2);
    for i in 0..r.range(1, 8) {
        if digit {
            let n = *r.pick(&[1, 1, 1, 2, 3, 20, 40]);
            for _ in 0..n {
                out.push_str(r.pick(&["0", "1", "9"]));
            }
        } else {
            out.push_str(r.pick(&["a", "b", "A", "rc", "Beta", "x", if i == 0 { "z" } else { "_" }]));
        }
        digit = !digit;
    }
    if out.ends_with('_') {
        out.push('1');
    }
    out
}
pub fn gen_version(r: &mut Rng) -> String {
    if r.chance(1, 30) {
        // deep versions of long tokens
        let n = r.range(1, 9);
        let (mut t, mut numeric) = (vec![], 0);
        while t.len() < n {
            let x = gen_token(r);
            if x.bytes().all(|b| b.is_ascii_digit()) {
                numeric += 1;
                if numeric > 5 {
                    break;
                }
            }
            t.push(x);
        }
        return t.join(".");
    }
    if r.chance(1, 25) {
        return r.pick(&["", "inf", "epsilon"]).to_string();
    }
    // small alphabets make near-collisions, which is where an order breaks
    let small = r.chance(2, 3);
    let max = if r.chance(1, 6) { 6 } else { 4 };
    let n = 1 + r.below(max);
    let mut out = String::new();
    let mut numeric = 0;
    for i in 0..n {
        let t = loop {
            let t = if small {
                *r.pick(&["0", "1", "2", "10", "00", "01", "a", "b", "rc1", "a1", "a10", "1a"])
            } else {
                *r.pick(TOK)
            };
            if t.bytes().all(|b| b.is_ascii_digit()) {
                if numeric >= 5 {
                    continue;
                }
                numeric += 1;
            }
            break t;
        };
        if i > 0 {
            out.push_str(if r.chance(5, 6) { "." } else { *r.pick(&["-", "+"]) });
        }
        out.push_str(t);
    }
    out
}
/// a variation close to `s`
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut t: Vec<String> = s.split(['.', '-', '+']).map(String::from).collect();
    if s.is_empty() || s == "inf" || s == "epsilon" {
        return gen_version(r);
    }
    match r.below(7) {
        5 => {
            // a token with another token's text after it, or without its end
            let i = r.below(t.len());
            if r.chance(1, 2) {
                let x = gen_token(r);
                let sep = if t[i].ends_with(|c: char| c.is_ascii_digit()) { "b" } else { "1" };
                t[i] = format!("{}{sep}{x}", t[i]);
            } else if t[i].len() > 1 {
                t[i].pop();
                if t[i].ends_with('_') {
                    t[i].push('0');
                }
            }
        }
        6 if t.len() < 9 => {
            let i = r.below(t.len() + 1);
            t.insert(i, r.pick(&["a", "a1", "b"]).to_string());
        }
        0 if t.len() < 4 => t.push(r.pick(&["0", "1", "a", "00"]).to_string()),
        1 if t.len() > 1 => {
            t.pop();
        }
        2 => {
            let i = r.below(t.len());
            t[i] = r.pick(TOK).to_string();
        }
        3 => {
            let i = r.below(t.len());
            if t[i].bytes().all(|b| b.is_ascii_digit()) {
                t[i] = format!("0{}", t[i]);
            }
        }
        _ => {
            let i = r.below(t.len());
            t[i] = r.pick(&["0", "1", "2"]).to_string();
        }
    }
    while t.iter().filter(|x| x.bytes().all(|b| b.is_ascii_digit())).count() > 5 {
        t.pop();
    }
    let mut sep = |_: usize| if r.chance(4, 5) { "." } else { "-" };
    let mut out = t[0].clone();
    for (i, x) in t.iter().enumerate().skip(1) {
        out.push_str(sep(i));
        out.push_str(x);
    }
    out
}

pub fn v01(m: &mut Mon) {
    m.describe(
        "every pair/triple of a random pool is compared, hashed, sorted and round-tripped by the real code and judged by an independent token-by-token model; a case is distinct when its (multi)set of version texts was not seen before",
        &["a version text is tokens of letters, digits and inner underscores joined by one of . - +, at most 10 tokens of which at most 5 are all digits",
          "missing trailing tokens rank as 0; letters rank below digits; the empty version is least and inf greatest"],
        20_000,
    );
    let mut r = m.rng(1);
    let pools = m.size(2500, 12);
    for pool_no in 0..pools {
        if m.full() {
            break;
        }
        let mut texts: Vec<String> = (0..4).map(|_| gen_version(&mut r)).collect();
        while texts.len() < 14 {
            let base = r.pick(&texts).clone();
            texts.push(if r.chance(3, 4) { mutate(&mut r, &base) } else { gen_version(&mut r) });
        }
        let mut vs: Vec<(String, Version, MV)> = vec![];
        for t in &texts {
            let parsed = m.guard("parse-no-panic", || json!(t), || Version::parse(t));
            let Some(p) = parsed else { continue };
            if !m.check("well-formed-version-accepted", p.is_ok(), || json!({"text": t, "error": format!("{:?}", p.as_ref().err())})) {
                continue;
            }
            vs.push((t.clone(), p.unwrap(), model(t)));
        }
        let mut key = texts.clone();
        key.sort();
        m.seen(&key);
        // pairs
        for (ta, a, ma) in &vs {
            for (tb, b, mb) in &vs {
                let want = mcmp(ma, mb);
                let got = a.cmp(b);
                m.check("order-matches-model", got == want, || json!({"a": ta, "b": tb, "got": format!("{got:?}"), "want": format!("{want:?}")}));
                let rev = b.cmp(a);
                m.check("antisymmetric", rev == got.reverse(), || json!({"a": ta, "b": tb, "ab": format!("{got:?}"), "ba": format!("{rev:?}")}));
                m.check("eq-agrees-with-order", (a == b) == (got == Ordering::Equal), || json!({"a": ta, "b": tb, "eq": a == b, "cmp": format!("{got:?}")}));
                m.check("partial-order-agrees", a.partial_cmp(b) == Some(got), || json!({"a": ta, "b": tb}));
                let ops = (a < b, a <= b, a > b, a >= b, a != b);
                let wops = (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge(), want.is_ne());
                m.check("operators-agree", ops == wops, || json!({"a": ta, "b": tb, "got": format!("{ops:?}")}));
                if a == b {
                    m.check("equal-versions-hash-equal", h(a) == h(b), || json!({"a": ta, "b": tb}));
                    m.count("equal_pairs", (ta != tb) as u64);
                }
                // prefix relation by tokens
                let (x, y) = (mtokens(ta), mtokens(tb));
                let wp = x.len() >= y.len() && x[..y.len()] == y[..];
                let gp = a.has_prefix(b);
                m.check("prefix-by-tokens", gp == wp, || json!({"version": ta, "prefix": tb, "got": gp, "want": wp}));
            }
        }
        // triples: transitivity of the observed order itself
        for _ in 0..200 {
            let (ta, a, _) = r.pick(&vs);
            let (tb, b, _) = r.pick(&vs);
            let (tc, c, _) = r.pick(&vs);
            if a <= b && b <= c {
                m.check("transitive", a <= c, || json!({"a": ta, "b": tb, "c": tc}));
            }
        }
        // collections
        let classes: BTreeSet<MV> = vs.iter().map(|x| x.2.clone()).collect();
        let hs: HashSet<&Version> = vs.iter().map(|x| &x.1).collect();
        let bs: BTreeSet<&Version> = vs.iter().map(|x| &x.1).collect();
        m.check("hash-set-has-one-per-version", hs.len() == classes.len(), || json!({"texts": texts, "got": hs.len(), "want": classes.len()}));
        m.check("ordered-set-has-one-per-version", bs.len() == classes.len(), || json!({"texts": texts, "got": bs.len(), "want": classes.len()}));
        // sorting does not depend on the initial order
        let mut first: Option<Vec<MV>> = None;
        for _ in 0..4 {
            let mut w: Vec<&(String, Version, MV)> = vs.iter().collect();
            r.shuffle(&mut w);
            w.sort_by(|p, q| p.1.cmp(&q.1));
            let out: Vec<MV> = w.iter().map(|x| x.2.clone()).collect();
            let sorted = out.windows(2).all(|p| mcmp(&p[0], &p[1]).is_le());
            m.check("sorts-ascending", sorted, || json!({"order": w.iter().map(|x| &x.0).collect::<Vec<_>>()}));
            match &first {
                None => first = Some(out),
                Some(f) => {
                    m.check("sort-independent-of-input-order", f == &out, || json!({"texts": texts}));
                }
            }
        }
        // single-version facts
        for (t, v, mv) in &vs {
            let txt = v.to_string();
            let back = Version::parse(&txt);
            let ok = back.as_ref().is_ok_and(|b| b == v && h(b) == h(v) && b.to_string() == txt);
            m.check("text-round-trip", ok && (txt == *t || mv == &MV::Empty), || json!({"text": t, "display": txt}));
            let js = serde_json::to_string(v).unwrap_or_default();
            let jb: Result<Version, _> = serde_json::from_str(&js);
            m.check("json-round-trip", jb.as_ref().is_ok_and(|b| b == v && b.as_str() == v.as_str()), || json!({"text": t, "json": js}));
            let toks: Vec<&str> = if mv == &MV::Empty || mv == &MV::Inf { vec![] } else { t.split(['.', '-', '+']).collect() };
            let num = |i: usize| -> Option<u64> { toks.get(i).filter(|x| x.bytes().all(|b| b.is_ascii_digit())).and_then(|x| x.parse().ok()) };
            m.check("components", (v.major(), v.minor(), v.patch(), v.len()) == (num(0), num(1), num(2), toks.len()),
                || json!({"text": t, "got": format!("{:?}", (v.major(), v.minor(), v.patch(), v.len()))}));
            let pre = ["alpha", "beta", "rc", "dev", "pre", "snapshot"];
            let wpre = toks.iter().any(|x| pre.iter().any(|p| x.to_lowercase().contains(p)));
            m.check("prerelease-flag", v.is_prerelease() == wpre, || json!({"text": t, "got": v.is_prerelease()}));
            let c = v.clone();
            m.check("clone-equal", c == *v && h(&c) == h(v) && c.as_str() == v.as_str(), || json!({"text": t}));
        }
        if pool_no < 4 {
            m.sample(json!({"pool": texts}));
        }
    }
    m.count("pools", pools as u64);
    // hostile text never panics and an accepted text survives a round trip
    let alphabet: Vec<char> = "0129azAZ_.-+ \t*<>=!~|,é٣𝟙\u{0}\n'\"vV".chars().collect();
    for i in 0..m.size(20_000, 10) {
        if m.full() {
            break;
        }
        let n = r.below(12);
        let mut s: String = (0..n).map(|_| *r.pick(&alphabet)).collect();
        if i % 500 == 0 {
            s = s.repeat(2000);
        }
        let Some(p) = m.guard("hostile-text-no-panic", || json!(s.chars().take(200).collect::<String>()), || Version::parse(&s)) else { continue };
        m.count(if p.is_ok() { "hostile_accepted" } else { "hostile_rejected" }, 1);
        if let Ok(v) = p {
            m.seen(&("h", &s));
            let b = Version::parse(v.as_str());
            m.check("accepted-text-round-trips", b.as_ref().is_ok_and(|b| *b == v && h(b) == h(&v)), || json!({"text": s}));
            // ordering against a fixed landmark is consistent both ways
            let one = Version::parse("1.0").unwrap();
            m.check("hostile-antisymmetric", v.cmp(&one) == one.cmp(&v).reverse(), || json!({"text": s}));
        } else {
            m.check("hostile-rejected-cleanly", true, || json!(null));
        }
    }
    // very many tokens / digits
    for n in [6usize, 7, 11, 12, 100, 10_000] {
        let s = vec!["1"; n].join(".");
        let p = m.guard("long-no-panic", || json!(n), || Version::parse(&s));
        m.check("too-many-tokens-rejected", p.is_some_and(|p| p.is_err()), || json!({"tokens": n}));
    }
}

// ---------------------------------------------------------------- ranges
#[derive(Clone, Debug)]
pub enum B {
    Ge(String),
    Gt(String),
    Le(String),
    Lt(String),
    Eq(String),
    Ne(String),
    Compat(String),
}
fn compat_upper(v: &str) -> Option<String> {
    let p: Vec<&str> = v.split('.').collect();
    match p.len() {
        0 | 1 => None,
        2 => Some(format!("{}.0", p[0].parse::<u64>().ok()?.checked_add(1)?)),
        _ => Some(format!("{}.{}.0", p[0], p[1].parse::<u64>().ok()?.checked_add(1)?)),
    }
}
impl B {
    fn has(&self, v: &MV) -> bool {
        let c = |t: &String| mcmp(v, &model(t));
        match self {
            B::Ge(t) => c(t).is_ge(),
            B::Gt(t) => c(t).is_gt(),
            B::Le(t) => c(t).is_le(),
            B::Lt(t) => c(t).is_lt(),
            B::Eq(t) => c(t).is_eq(),
            B::Ne(t) => c(t).is_ne(),
            B::Compat(t) => c(t).is_ge() && compat_upper(t).is_none_or(|u| mcmp(v, &model(&u)).is_lt()),
        }
    }
    fn text(&self) -> String {
        match self {
            B::Ge(t) => format!(">={t}"),
            B::Gt(t) => format!(">{t}"),
            B::Le(t) => format!("<={t}"),
            B::Lt(t) => format!("<{t}"),
            B::Eq(t) => format!("=={t}"),
            B::Ne(t) => format!("!={t}"),
            B::Compat(t) => format!("~={t}"),
        }
    }
    fn named(&self) -> Vec<String> {
        match self {
            B::Ge(t) | B::Gt(t) | B::Le(t) | B::Lt(t) | B::Eq(t) | B::Ne(t) => vec![t.clone()],
            B::Compat(t) => std::iter::once(t.clone()).chain(compat_upper(t)).collect(),
        }
    }
}
/// a union of conjunctions; an empty conjunction is "any", `None` is the impossible one
#[derive(Clone, Debug)]
pub struct MR(pub Vec<Option<Vec<B>>>);
impl MR {
    pub fn has(&self, v: &MV) -> bool {
        self.0.iter().any(|c| c.as_ref().is_some_and(|c| c.iter().all(|b| b.has(v))))
    }
    fn named(&self) -> Vec<String> {
        self.0.iter().flatten().flatten().flat_map(|b| b.named()).collect()
    }
}
/// one version inside every elementary interval that the named versions cut out
/// (the empty version, inf, each named version, and a point strictly between neighbours)
pub fn probes(named: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec!["".into(), "inf".into()];
    let mut reals: Vec<(MV, String)> = named
        .iter()
        .filter(|t| matches!(model(t), MV::Toks(_)))
        .map(|t| (model(t), t.clone()))
        .collect();
    reals.sort_by(|a, b| mcmp(&a.0, &b.0));
    reals.dedup_by(|a, b| mcmp(&a.0, &b.0).is_eq());
    // below everything that starts with a digit or a letter other than 'A'
    out.push("A".into());
    out.push("AA.0".into());
    out.push("0".into());
    out.push("999999999999999999999999999".into());
    for (_, t) in &reals {
        out.push(t.clone());
        // just above t: t padded to a common depth, then a tiny step
        let mut p: Vec<String> = t.split(['.', '-', '+']).map(String::from).collect();
        while p.len() < 5 {
            p.push("0".into());
        }
        let base = p.join(".");
        for last in ["A", "a", "0a", "1"] {
            let c = format!("{base}.{last}");
            if Version::parse(&c).is_ok() {
                out.push(c);
            }
        }
        // just below t: pad to a common depth, then a letter token (letters rank below 0)
        out.push(format!("{t}.A"));
        out.push(format!("{t}.a"));
        out.push(format!("{t}.0.1"));
    }
    out.retain(|t| Version::parse(t).is_ok());
    out
}
fn gen_rv(r: &mut Rng, plain: bool) -> String {
    if !plain && r.chance(1, 8) {
        loop {
            let v = gen_version(r);
            if !v.is_empty() && v != "epsilon" && !v.contains('+') && v.split(['.', '-']).count() <= 3 {
                return v;
            }
        }
    }
    let n = *r.pick(&[1, 1, 2, 2, 3, 3, 4, 5]);
    (0..n).map(|_| *r.pick(&["0", "1", "2", "3", "10"])).collect::<Vec<_>>().join(".")
}
/// (text, model)
pub fn gen_range(r: &mut Rng) -> (String, MR) {
    let wide = r.chance(1, 12);
    let alts = if wide { r.range(4, 6) } else if r.chance(1, 3) { r.range(2, 3) } else { 1 };
    let mut texts = vec![];
    let mut model = vec![];
    for _ in 0..alts {
        let (t, c) = loop {
            let (t, c) = gen_conj(r);
            // many long alternatives are slow to subtract
            if !wide || c.as_ref().is_none_or(|c| c.len() <= 2) {
                break (t, c);
            }
        };
        texts.push(t);
        model.push(c);
    }
    let sep = *r.pick(&["|", " | ", "| "]);
    (texts.join(sep), MR(model))
}
fn gen_conj(r: &mut Rng) -> (String, Option<Vec<B>>) {
    match r.below(14) {
        0 => ("*".into(), Some(vec![])),
        1 if r.chance(1, 2) => (r.pick(&["empty", "!*"]).to_string(), None),
        2 => {
            let v = gen_rv(r, false);
            if v == "inf" || v.contains('+') { return (format!("=={v}"), Some(vec![B::Eq(v)])); }
            (v.clone(), Some(vec![B::Eq(v)]))
        }
        3 => {
            let v = gen_rv(r, true);
            (format!("{v}+"), Some(vec![B::Ge(v)]))
        }
        4 => {
            let (v, w) = (gen_rv(r, true), gen_rv(r, true));
            (format!("{v}+<{w}"), Some(vec![B::Ge(v), B::Lt(w)]))
        }
        5 => {
            let (v, w) = (gen_rv(r, true), gen_rv(r, true));
            (format!("{v}..{w}"), Some(vec![B::Ge(v), B::Lt(w)]))
        }
        _ => {
            let n = *r.pick(&[1, 1, 2, 2, 2, 3, 4, 5]);
            let bs: Vec<B> = (0..n)
                .map(|_| {
                    let v = gen_rv(r, false);
                    match r.below(9) {
                        0 | 1 => B::Ge(v),
                        2 => B::Gt(v),
                        3 => B::Le(v),
                        4 | 5 => B::Lt(v),
                        6 => B::Eq(v),
                        7 => B::Ne(v),
                        _ => B::Compat(gen_rv(r, true)),
                    }
                })
                .collect();
            let sep = *r.pick(&[",", " ", ", ", "  "]);
            (bs.iter().map(|b| b.text()).collect::<Vec<_>>().join(sep), Some(bs))
        }
    }
}

pub fn v02(m: &mut Mon) {
    m.describe(
        "random range texts over all supported syntaxes; membership, union, intersection, difference, subset/superset/overlap/any/empty answers and the re-parsed text of every result are judged, at one probe version per elementary interval, by an independent set model; distinct = distinct pair of range texts",
        &["probes: every named endpoint, a point between each pair of neighbours, below all, above all, the empty version and inf"],
        50_000,
    );
    let mut r = m.rng(2);
    let n = m.size(2500, 12);
    for k in 0..n {
        if m.full() {
            break;
        }
        let (ta, ma) = gen_range(&mut r);
        let (tb, mb) = gen_range(&mut r);
        let parse = |t: &str| VersionRange::parse(t);
        let (Some(a), Some(b)) = (
            m.guard("parse-no-panic", || json!(ta), || parse(&ta)),
            m.guard("parse-no-panic", || json!(tb), || parse(&tb)),
        ) else { continue };
        m.check("well-formed-range-accepted", a.is_ok(), || json!({"range": ta, "err": format!("{:?}", a.as_ref().err())}));
        m.check("well-formed-range-accepted", b.is_ok(), || json!({"range": tb, "err": format!("{:?}", b.as_ref().err())}));
        let (Ok(a), Ok(b)) = (a, b) else { continue };
        m.seen(&(&ta, &tb));
        if k < 6 {
            m.sample(json!([ta, tb]));
        }
        let mut named = ma.named();
        named.extend(mb.named());
        let ps: Vec<(String, Version, MV)> = probes(&named)
            .into_iter()
            .map(|t| (t.clone(), Version::parse(&t).unwrap(), model(&t)))
            .collect();
        m.count("probe_versions", ps.len() as u64);
        let res = m.guard("operations-no-panic", || json!([ta, tb]), || {
            (a.union(&b), a.intersect(&b), a.subtract(&b))
        });
        let Some((u, i, d)) = res else { continue };
        let mut derived: Vec<(&str, Option<VersionRange>)> = vec![
            ("union", Some(u.clone())),
            ("intersection", i.clone()),
            ("difference", d.clone()),
        ];
        for (_, x) in derived.clone().iter() {
            if let Some(x) = x {
                let t = x.as_str().to_string();
                let back = VersionRange::parse(&t);
                m.check("result-text-parses", back.is_ok(), || json!({"a": ta, "b": tb, "text": t}));
                if let Ok(back) = back {
                    derived.push(("reparsed", Some(back.clone())));
                    for (pt, p, _) in &ps {
                        m.check("result-text-means-the-same", back.contains(p) == x.contains(p), || json!({"a": ta, "b": tb, "text": t, "version": pt}));
                    }
                }
                let js = serde_json::to_string(x).unwrap_or_default();
                let jb: Result<VersionRange, _> = serde_json::from_str(&js);
                let ok = jb.as_ref().is_ok_and(|jb| ps.iter().all(|(_, p, _)| jb.contains(p) == x.contains(p)));
                m.check("stored-range-means-the-same", ok, || json!({"json": js}));
            }
        }
        let (mut sub, mut sup, mut inter, mut any_a, mut empty_a) = (true, true, false, true, true);
        let mut diff_nonempty = false;
        for (pt, p, mp) in &ps {
            let (x, y) = (ma.has(mp), mb.has(mp));
            let gx = a.contains(p);
            m.check("membership", gx == x, || json!({"range": ta, "version": pt, "got": gx, "want": x}));
            let gy = b.contains(p);
            m.check("membership", gy == y, || json!({"range": tb, "version": pt, "got": gy, "want": y}));
            let gu = u.contains(p);
            m.check("union", gu == (x || y), || json!({"a": ta, "b": tb, "version": pt, "got": gu}));
            let gi = i.as_ref().is_some_and(|i| i.contains(p));
            m.check("intersection", gi == (x && y), || json!({"a": ta, "b": tb, "version": pt, "got": gi}));
            let gd = d.as_ref().is_some_and(|d| d.contains(p));
            m.check("difference", gd == (x && !y), || json!({"a": ta, "b": tb, "version": pt, "got": gd}));
            sub &= !x || y;
            sup &= !y || x;
            inter |= x && y;
            any_a &= x;
            empty_a &= !x;
            diff_nonempty |= x && !y;
        }
        let ans = [
            ("subset", a.is_subset_of(&b), sub),
            ("superset", a.is_superset_of(&b), sup),
            ("overlap", a.intersects(&b), inter),
            ("overlap-symmetric", b.intersects(&a), inter),
            ("is-any", a.is_any(), any_a),
            ("is-empty", a.is_empty(), empty_a),
            ("intersection-none-iff-disjoint", i.is_some(), inter),
            ("difference-none-iff-covered", d.is_some(), diff_nonempty),
        ];
        for (rule, got, want) in ans {
            m.check(rule, got == want, || json!({"a": ta, "b": tb, "got": got, "want": want}));
        }
        m.count(if inter { "overlapping_pairs" } else { "disjoint_pairs" }, 1);
        m.count(if sub { "subset_pairs" } else { "non_subset_pairs" }, 1);
        // longer histories: fold a third range in
        let (tc, mc) = gen_range(&mut r);
        if let Ok(c) = VersionRange::parse(&tc) {
            let e1 = u.subtract(&c);
            let e2 = i.as_ref().map(|i| i.union(&c));
            for (pt, p, mp) in &ps {
                let (x, y, z) = (ma.has(mp), mb.has(mp), mc.has(mp));
                let g1 = e1.as_ref().is_some_and(|e| e.contains(p));
                m.check("three-way-difference", g1 == ((x || y) && !z), || json!({"a": ta, "b": tb, "c": tc, "version": pt}));
                if let Some(e2) = &e2 {
                    m.check("three-way-union", e2.contains(p) == ((x && y) || z), || json!({"a": ta, "b": tb, "c": tc, "version": pt}));
                }
            }
        }
    }
    // special ranges
    for (range, name, want) in [(VersionRange::any(), "any", true), (VersionRange::none(), "none", false)] {
        for t in ["", "inf", "0", "1.0", "a", "99999999999999999999999"] {
            let v = Version::parse(t).unwrap();
            m.check("constants", range.contains(&v) == want, || json!({"range": name, "version": t}));
        }
        m.check("constants-flags", range.is_any() == want && range.is_empty() != want, || json!(name));
    }
    // hostile text
    let alphabet: Vec<char> = "0123..++<>=!~|,, *ae-_ é\n".chars().collect();
    for _ in 0..m.size(20_000, 10) {
        if m.full() {
            break;
        }
        let n = r.below(14);
        let s: String = (0..n).map(|_| *r.pick(&alphabet)).collect();
        let Some(p) = m.guard("hostile-text-no-panic", || json!(s), || VersionRange::parse(&s)) else { continue };
        match p {
            Err(_) => m.count("hostile_rejected", 1),
            Ok(x) => {
                m.count("hostile_accepted", 1);
                let y = VersionRange::parse(x.as_str());
                let one = Version::parse("1.0").unwrap();
                m.check("hostile-round-trip", y.as_ref().is_ok_and(|y| y.contains(&one) == x.contains(&one)), || json!(s));
                let r2 = m.guard("hostile-operations-no-panic", || json!(s), || {
                    let _ = x.union(&VersionRange::any());
                    let _ = x.subtract(&VersionRange::any());
                    (x.is_subset_of(&VersionRange::any()), x.is_any(), x.is_empty())
                });
                if let Some((s1, any, empty)) = r2 {
                    m.check("hostile-within-any", s1 && !(any && empty), || json!(s));
                }
            }
        }
    }
}
