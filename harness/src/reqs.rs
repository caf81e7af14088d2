//! R01 requirements: an independent model of requirement texts and what they admit.
use crate::mon::{Mon, Rng};
use crate::vers::{MV, Seg, gen_version, mcmp, model};
use rez_next_package::{PackageRequirement, Requirement, VersionConstraint};
use rez_next_version::Version;
use serde_json::json;
use std::cmp::Ordering;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Op(&'static str, String),
    Prefix(String),
    Wild(String),
    /// one of several conjunctions (`name-1|3+<5`)
    Any(Vec<Vec<C>>, String),
}
#[derive(Clone, Debug)]
pub struct MReq {
    pub name: String,
    pub weak: bool,
    pub conflict: bool,
    pub cs: Vec<C>,
    pub text: String,
}
pub fn toks(v: &str) -> Vec<Vec<Seg>> {
    match v {
        "" | "inf" | "epsilon" => vec![],
        t => t
            .split(['.', '-', '+'])
            .map(|x| match model(x) {
                MV::Toks(t) => t.into_iter().next().unwrap_or_else(|| vec![Seg::N(0, String::new())]),
                _ => vec![],
            })
            .collect(),
    }
}
/// compare `v` with `c`, looking at as many tokens as `c` has
fn dcmp(v: &str, c: &str) -> Ordering {
    let (a, b) = (toks(v), toks(c));
    if a.is_empty() || b.is_empty() {
        return mcmp(&model(v), &model(c));
    }
    let zero = vec![Seg::N(0, String::new())];
    for i in 0..b.len() {
        let x = a.get(i).unwrap_or(&zero);
        match x.cmp(&b[i]) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    Ordering::Equal
}
impl C {
    /// None: the property does not say
    pub fn has(&self, v: &str) -> Option<bool> {
        Some(match self {
            C::Op("==", c) => dcmp(v, c).is_eq(),
            C::Op(">=", c) => dcmp(v, c).is_ge(),
            C::Op("<=", c) => dcmp(v, c).is_le(),
            C::Op(">", c) => dcmp(v, c).is_gt(),
            C::Op("<", c) => dcmp(v, c).is_lt(),
            C::Op("!=", c) => mcmp(&model(v), &model(c)).is_ne(),
            C::Op(_, c) => {
                // ~= : all tokens but the last are fixed, the last is a floor
                let (x, y) = (toks(v), toks(c));
                let plain = |t: &Vec<Vec<Seg>>, n: usize| t.iter().take(n).all(|s| matches!(&s[..], [Seg::N(..)]));
                if x.len() < y.len() || !plain(&x, y.len()) || !plain(&y, y.len()) || v.contains(['-', '+']) || canon(v) != v {
                    return None;
                }
                x[..y.len() - 1] == y[..y.len() - 1] && x[y.len() - 1] >= y[y.len() - 1]
            }
            C::Prefix(c) => {
                let (x, y) = (toks(v), toks(c));
                x.len() >= y.len() && x[..y.len()] == y[..]
            }
            C::Any(alts, _) => {
                let rs: Vec<Option<bool>> = alts
                    .iter()
                    .map(|cs| {
                        let k: Vec<Option<bool>> = cs.iter().map(|c| c.has(v)).collect();
                        if k.contains(&Some(false)) { Some(false) } else if k.contains(&None) { None } else { Some(true) }
                    })
                    .collect();
                if rs.contains(&Some(true)) {
                    true
                } else if rs.contains(&None) {
                    return None;
                } else {
                    false
                }
            }
            C::Wild(p) => {
                if v.contains(['-', '+']) || canon(v) != v || v.is_empty() || v == "inf" || v == "epsilon" {
                    return None;
                }
                let p: Vec<&str> = p.split('.').take_while(|x| *x != "*").collect();
                let x: Vec<&str> = v.split('.').collect();
                x.len() >= p.len() && x[..p.len()] == p[..]
            }
        })
    }
    fn text(&self) -> String {
        match self {
            C::Op(o, c) => format!("{o}{c}"),
            C::Prefix(c) => format!("-{c}"),
            C::Wild(p) => format!("=={p}"),
            C::Any(_, t) => t.clone(),
        }
    }
}
/// the text with leading zeros of digit tokens removed
fn canon(v: &str) -> String {
    v.split('.')
        .map(|t| if t.len() > 1 && t.bytes().all(|b| b.is_ascii_digit()) {
            let z = t.trim_start_matches('0');
            if z.is_empty() { "0".into() } else { z.to_string() }
        } else { t.to_string() })
        .collect::<Vec<_>>()
        .join(".")
}
impl MReq {
    pub fn admits(&self, v: &str) -> Option<bool> {
        let mut all = true;
        let mut unknown = false;
        for c in &self.cs {
            match c.has(v) {
                Some(false) => all = false,
                None => unknown = true,
                _ => {}
            }
        }
        if !all { Some(false) } else if unknown { None } else { Some(true) }
    }
}
pub fn gen_cv(r: &mut Rng, rich: bool) -> String {
    let n = if rich { *r.pick(&[1, 1, 2, 2, 3, 3, 4, 5]) } else { r.range(1, 3) };
    let pool: &[&str] = if rich && r.chance(1, 4) {
        &["0", "1", "2", "10", "rc1", "alpha", "a", "b2", "99", "4294967296", "18446744073709551616", "36893488147419103232", "rc10", "rc2"]
    } else {
        &["0", "1", "2", "3", "9", "10"]
    };
    (0..n).map(|_| *r.pick(pool)).collect::<Vec<_>>().join(".")
}
pub fn gen_constraint(r: &mut Rng, rich: bool) -> (Vec<C>, String) {
    let v = gen_cv(r, rich);
    match r.below(18) {
        16 | 17 => {
            let k = r.range(2, 5);
            let (mut alts, mut ts) = (vec![], vec![]);
            for _ in 0..k {
                let v = gen_cv(r, rich);
                let w = gen_cv(r, rich);
                match r.below(5) {
                    0 => {
                        alts.push(vec![C::Op(">=", v.clone())]);
                        ts.push(format!("{v}+"));
                    }
                    1 => {
                        alts.push(vec![C::Op(">=", v.clone()), C::Op("<", w.clone())]);
                        ts.push(format!("{v}+<{w}"));
                    }
                    2 => {
                        alts.push(vec![C::Op(">=", v.clone()), C::Op("<", w.clone())]);
                        ts.push(format!("{v}..{w}"));
                    }
                    _ => {
                        alts.push(vec![C::Prefix(v.clone())]);
                        ts.push(v.clone());
                    }
                }
            }
            let t = format!("-{}", ts.join("|"));
            (vec![C::Any(alts, t.clone())], t)
        }
        0..=2 => (vec![], String::new()),
        3 => (vec![C::Prefix(v.clone())], format!("-{v}")),
        4 => (vec![C::Op(">=", v.clone())], format!("-{v}+")),
        5 => {
            let w = gen_cv(r, rich);
            let (op, t): (&str, &str) = *r.pick(&[("<", "<"), ("<=", "<=")]);
            (vec![C::Op(">=", v.clone()), C::Op(op, w.clone())], format!("-{v}+{t}{w}"))
        }
        6 => {
            let w = gen_cv(r, rich);
            (vec![C::Op(">=", v.clone()), C::Op("<", w.clone())], format!("-{v}..{w}"))
        }
        7 => {
            let p = format!("{}.*", r.pick(&["0", "1", "2", "1.0", "2.1", "10"]));
            (vec![C::Wild(p.clone())], format!("=={p}"))
        }
        8 => {
            let w: String = (0..r.range(2, 5)).map(|_| *r.pick(&["0", "1", "2", "10"])).collect::<Vec<_>>().join(".");
            (vec![C::Op("~=", w.clone())], format!("~={w}"))
        }
        9..=11 => {
            let w = gen_cv(r, rich);
            let a = *r.pick(&[">=", ">", "!="]);
            let b = *r.pick(&["<", "<=", "!="]);
            let sep = *r.pick(&[",", ", "]);
            let (mut cs, mut t) = (vec![C::Op(a, v.clone()), C::Op(b, w.clone())], format!("{a}{v}{sep}{b}{w}"));
            for _ in 0..*r.pick(&[0, 0, 1, 3]) {
                let (o, x) = (*r.pick(&["!=", ">=", "<=", "!="]), gen_cv(r, rich));
                t += &format!("{sep}{o}{x}");
                cs.push(C::Op(o, x));
            }
            (cs, t)
        }
        _ => {
            let op = *r.pick(&["==", ">=", "<=", ">", "<", "!=", ">=", "<"]);
            let c = C::Op(op, v);
            let t = c.text();
            (vec![c], t)
        }
    }
}
pub fn gen_req(r: &mut Rng, name: &str, rich: bool) -> MReq {
    let (cs, t) = gen_constraint(r, rich);
    let (weak, conflict) = match r.below(10) {
        0 => (true, false),
        1 => (false, true),
        _ => (false, false),
    };
    let flag = if weak { "~" } else if conflict { "!" } else { "" };
    MReq { name: name.into(), weak, conflict, cs, text: format!("{flag}{name}{t}") }
}

pub fn r01(m: &mut Mon) {
    m.describe(
        "random requirement texts over every documented syntax are parsed by the real code; admission of ~20 versions per text, the parsed name/flags/namespace/conditions, and the meaning after printing or storing and reading back are judged by an independent model; distinct = distinct requirement texts",
        &["package names contain letters, digits and underscores", "~= and wildcard admission is judged only for plain canonical versions at least as deep as the constraint"],
        50_000,
    );
    let mut r = m.rng(3);
    let names = ["foo", "python", "my_pkg", "a", "lib2", "x_1"];
    let platforms = ["linux", "windows", "osx"];
    let arches = ["x86_64", "arm64"];
    let n = m.size(1600, 16);
    for k in 0..n {
        if m.full() {
            break;
        }
        let name = r.pick(&names).to_string();
        let mr = gen_req(&mut r, &name, true);
        // optional namespace and conditions
        let ns = if r.chance(1, 6) { Some("studio".to_string()) } else { None };
        let mut plat: Vec<(String, Option<String>, bool)> = vec![];
        let mut env: Vec<(String, Option<String>, bool)> = vec![];
        let mut cond = String::new();
        if r.chance(1, 3) {
            for _ in 0..r.range(1, 3) {
                if r.chance(1, 2) {
                    let p = r.pick(&platforms).to_string();
                    let a = if r.chance(1, 2) { Some(r.pick(&arches).to_string()) } else { None };
                    let neg = r.chance(1, 3);
                    cond += &format!("[platform{}'{p}'{}]", if neg { "!=" } else { "==" }, a.as_ref().map_or(String::new(), |a| format!(" and arch=='{a}'")));
                    plat.push((p, a, neg));
                } else {
                    let v = r.pick(&["A", "B", "USER_X"]).to_string();
                    let val = if r.chance(3, 4) { Some(r.pick(&["1", "on", "x y"]).to_string()) } else { None };
                    let neg = val.is_some() && r.chance(1, 3);
                    cond += &match &val {
                        Some(x) => format!("[env.{v}{}'{x}']", if neg { "!=" } else { "==" }),
                        None => format!("[env.{v}]"),
                    };
                    env.push((v, val, neg));
                }
            }
        }
        let flag = if mr.weak { "~" } else if mr.conflict { "!" } else { "" };
        let body = mr.text.trim_start_matches(['~', '!']).to_string();
        let text = format!("{flag}{}{body}{cond}", ns.as_ref().map_or(String::new(), |n| format!("{n}::")));
        if !m.seen(&text) && k > 50 {
            continue;
        }
        let Some(p) = m.guard("parse-no-panic", || json!(text), || text.parse::<Requirement>()) else { continue };
        if !m.check("well-formed-requirement-accepted", p.is_ok(), || json!({"text": text, "err": p.as_ref().err()})) {
            continue;
        }
        let req = p.unwrap();
        if k < 8 {
            m.sample(json!(text));
        }
        m.check("fields", (req.name == name, req.weak, req.conflict, &req.namespace) == (true, mr.weak, mr.conflict, &ns),
            || json!({"text": text, "got": format!("{req:?}")}));
        m.check("qualified-name", req.qualified_name() == ns.as_ref().map_or(name.clone(), |n| format!("{n}::{name}")) && req.package_name() == name, || json!({"text": text, "got": req.qualified_name()}));
        // versions: near the constraint and arbitrary
        let mut vs: Vec<String> = vec!["".into(), "inf".into(), "1".into(), "1.0".into()];
        let flat: Vec<&C> = mr.cs.iter().flat_map(|c| match c {
            C::Any(alts, _) => alts.iter().flatten().collect::<Vec<_>>(),
            c => vec![c],
        }).collect();
        for c in flat {
            let base = match c { C::Op(_, v) | C::Prefix(v) => v.clone(), C::Wild(p) => p.trim_end_matches(".*").to_string(), C::Any(..) => continue };
            for suf in ["", ".0", ".1", ".0.1", ".alpha", ".10", ".rc1"] {
                vs.push(format!("{base}{suf}"));
            }
            if let Some((head, _)) = base.rsplit_once('.') {
                vs.push(head.to_string());
                vs.push(format!("{head}.0"));
                vs.push(format!("{head}.2"));
                let mut t: Vec<&str> = base.split('.').collect();
                let i = r.below(t.len());
                t[i] = *r.pick(&["0", "1", "2", "10", "3"]);
                vs.push(t.join("."));
            }
        }
        for _ in 0..8 {
            vs.push(if r.chance(1, 2) { gen_cv(&mut r, true) } else { gen_version(&mut r) });
        }
        let printed = req.to_string();
        let reparsed = m.guard("reparse-no-panic", || json!(printed), || printed.parse::<Requirement>()).and_then(|x| x.ok());
        m.check("printed-requirement-parses", reparsed.is_some(), || json!({"text": text, "printed": printed}));
        let stored: Option<Requirement> = serde_json::to_string(&req).ok().and_then(|j| serde_json::from_str(&j).ok());
        m.check("stored-requirement-loads", stored.as_ref() == Some(&req), || json!({"text": text}));
        for v in &vs {
            let Ok(ver) = Version::parse(v) else { continue };
            let got = req.is_satisfied_by(&ver);
            match mr.admits(v) {
                Some(want) => {
                    m.check("admits-exactly", got == want, || json!({"requirement": text, "version": v, "got": got, "want": want}));
                    m.count(if want { "admitted" } else { "refused" }, 1);
                }
                None => m.inconclusive("admission-unspecified"),
            }
            if let Some(rp) = &reparsed {
                m.check("printed-requirement-means-the-same", rp.is_satisfied_by(&ver) == got, || json!({"text": text, "printed": printed, "version": v}));
            }
            if let Some(st) = &stored {
                m.check("stored-requirement-means-the-same", st.is_satisfied_by(&ver) == got, || json!({"text": text, "version": v}));
            }
        }
        if let Some(rp) = &reparsed {
            m.check("printed-requirement-keeps-fields",
                rp.name == req.name && rp.weak == req.weak && rp.conflict == req.conflict && rp.namespace == req.namespace,
                || json!({"text": text, "printed": printed}));
        }
        // conditions
        for p in platforms {
            for a in [None, Some("x86_64"), Some("arm64")] {
                let want = {
                    let hit = |c: &(String, Option<String>, bool)| c.0 == p && c.1.as_deref().is_none_or(|x| a == Some(x));
                    if plat.is_empty() {
                        true
                    } else {
                        // first decisive condition wins; all-negative lists pass by default
                        let mut out = plat.iter().all(|c| c.2);
                        for c in &plat {
                            if hit(c) {
                                out = !c.2;
                                break;
                            }
                        }
                        out
                    }
                };
                for (which, q) in [("parsed", Some(&req)), ("printed", reparsed.as_ref())] {
                    if let Some(q) = q {
                        let got = q.is_platform_satisfied(p, a);
                        m.check("platform-condition", got == want, || json!({"which": which, "text": text, "platform": p, "arch": a, "got": got}));
                    }
                }
            }
        }
        for _ in 0..3 {
            let mut e = HashMap::new();
            for v in ["A", "B", "USER_X"] {
                if r.chance(2, 3) {
                    e.insert(v.to_string(), r.pick(&["1", "on", "x y", "", " 1", "on ", "ON", "1\n", "x  y"]).to_string());
                }
            }
            let want = env.iter().all(|(v, val, neg)| {
                let hit = match val { Some(x) => e.get(v) == Some(x), None => e.contains_key(v) };
                hit != *neg
            });
            for (which, q) in [("parsed", Some(&req)), ("printed", reparsed.as_ref())] {
                if let Some(q) = q {
                    let got = q.is_env_satisfied(&e);
                    m.check("environment-condition", got == want, || json!({"which": which, "text": text, "env": e, "got": got}));
                }
            }
        }
        // combining constraints
        let other = gen_req(&mut r, &name, true);
        if let (Ok(o), Some(c1)) = (other.text.trim_start_matches(['~', '!']).parse::<Requirement>(), req.version_constraint.clone())
            && let Some(c2) = o.version_constraint
        {
            let and: VersionConstraint = c1.clone().and(c2.clone());
            let or = c1.clone().or(c2.clone());
            for v in &vs {
                let Ok(ver) = Version::parse(v) else { continue };
                let (x, y) = (c1.is_satisfied_by(&ver), c2.is_satisfied_by(&ver));
                m.check("and-is-intersection", and.is_satisfied_by(&ver) == (x && y), || json!({"a": text, "b": other.text, "version": v}));
                m.check("or-is-union", or.is_satisfied_by(&ver) == (x || y), || json!({"a": text, "b": other.text, "version": v}));
            }
        }
        // constraints made without a text
        {
            let pick = |r: &mut Rng| gen_cv(r, true);
            let (lo, hi) = (pick(&mut r), pick(&mut r));
            let ex: Vec<String> = (0..r.range(1, 4)).map(|_| pick(&mut r)).collect();
            let pv = |t: &String| Version::parse(t).unwrap();
            let range = VersionConstraint::Range(pv(&lo), pv(&hi));
            let excl = VersionConstraint::Exclude(ex.iter().map(pv).collect());
            let mut some: Vec<String> = vs.clone();
            some.extend([lo.clone(), hi.clone(), format!("{lo}.1"), format!("{hi}.alpha")]);
            some.extend(ex.iter().cloned());
            for v in &some {
                let Ok(ver) = Version::parse(v) else { continue };
                let mv = model(v);
                let want = mcmp(&mv, &model(&lo)).is_ge() && mcmp(&mv, &model(&hi)).is_lt();
                m.check("range-constraint", range.is_satisfied_by(&ver) == want, || json!({"from": lo, "below": hi, "version": v}));
                let want = ex.iter().all(|e| mcmp(&mv, &model(e)).is_ne());
                m.check("exclusion-constraint", excl.is_satisfied_by(&ver) == want, || json!({"excluded": ex, "version": v}));
                m.check("any-constraint", VersionConstraint::Any.is_satisfied_by(&ver), || json!(v));
            }
        }
        // the simple requirement type agrees on operator forms and keeps its meaning when printed
        if ns.is_none() && cond.is_empty() {
            let Some(pr) = m.guard("simple-parse-no-panic", || json!(text), || PackageRequirement::parse(&text)) else { continue };
            let Ok(pr) = pr else {
                m.check("simple-requirement-accepted", false, || json!(text));
                continue;
            };
            m.check("simple-fields", pr.name == name && pr.weak == mr.weak && pr.conflict == mr.conflict, || json!({"text": text, "got": format!("{pr:?}")}));
            let again = PackageRequirement::parse(&pr.to_string());
            m.check("simple-printed-parses-back",
                again.as_ref().is_ok_and(|a| (&a.name, &a.version_spec, a.weak, a.conflict) == (&pr.name, &pr.version_spec, pr.weak, pr.conflict)),
                || json!({"text": text, "printed": pr.to_string(), "again": format!("{again:?}")}));
            // read as a full requirement it still means what was asked
            let full = pr.to_string().parse::<Requirement>();
            m.check("simple-printed-is-a-requirement", full.as_ref().is_ok_and(|f| f.name == name && f.weak == mr.weak && f.conflict == mr.conflict),
                || json!({"text": text, "printed": pr.to_string(), "full": format!("{full:?}")}));
            let op_form = mr.cs.iter().all(|c| matches!(c, C::Op(..))) && !body.contains('-');
            for v in &vs {
                let Ok(ver) = Version::parse(v) else { continue };
                if let Ok(f) = &full {
                    m.check("simple-printed-means-the-same", f.is_satisfied_by(&ver) == req.is_satisfied_by(&ver), || json!({"text": text, "printed": pr.to_string(), "version": v}));
                }
                if op_form && let Some(want) = mr.admits(v) {
                    m.check("simple-admits-exactly", pr.satisfied_by(&ver) == want, || json!({"text": text, "version": v, "want": want}));
                }
            }
        }
    }
    // hostile text
    let alphabet: Vec<char> = "foo12.-+<>=!~[]':*,| pév_\n$platformenv".chars().collect();
    for i in 0..m.size(4_000, 16) {
        if m.full() {
            break;
        }
        let n = r.below(18);
        let mut s: String = (0..n).map(|_| *r.pick(&alphabet)).collect();
        if i % 4 == 0 {
            s = format!("{}foo{}[{}]", r.pick(&["", "~", "!", "a::"]), s, r.pick(&["platform=='", "env.", "env.X!='", "platform", "platform=='é' and arch=='", "env.é=='"]));
        }
        let Some(p) = m.guard("hostile-text-no-panic", || json!(s), || s.parse::<Requirement>()) else { continue };
        m.guard("hostile-simple-no-panic", || json!(s), || PackageRequirement::parse(&s).is_ok());
        match p {
            Ok(q) => {
                m.count("hostile_accepted", 1);
                let v = Version::parse("1.0").unwrap();
                m.guard("hostile-use-no-panic", || json!(s), || (q.is_satisfied_by(&v), q.to_string()));
            }
            Err(_) => m.count("hostile_rejected", 1),
        }
        m.check("hostile-judged", true, || json!(null));
    }
}
