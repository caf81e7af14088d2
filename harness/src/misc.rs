//! O01: package orderers; U01: suites
use crate::files::rez;
use crate::mon::{Mon, Rng, crumb};
use crate::util;
use rez_next_package::{Package, package_order::*};
use rez_next_suites::{Suite, SuiteManager, ToolConflictMode};
use rez_next_version::Version;
use serde_json::{Value, json};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;

// ---------------------------------------------------------------- O01
const VERS: [&str; 25] = [
    "1", "1.0", "1.0.0", "1.0.1", "1.2", "1.10", "2", "2.0", "2.0.0", "10", "9", "0", "0.9", "1.0.beta", "1.beta", "1.a", "1.0a", "beta", "2024.1.1", "1_0", "1.0-1", "3.0.0", "1.Beta", "1.BETA", "1.B",
];
const FAMS: [&str; 6] = ["maya", "nuke", "python", "py", "Maya", "lib_x"];
fn gen_packages(r: &mut Rng) -> Vec<Package> {
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        2 => r.range(20, 60),
        _ => r.range(2, 12),
    };
    (0..n)
        .map(|i| {
            let mut p = Package::new((*r.pick(&FAMS)).to_string());
            if !r.chance(1, 5) {
                p.version = Version::parse(r.pick::<&str>(&VERS)).ok();
            }
            p.timestamp = match r.below(8) {
                0 => None,
                1 => Some(0),
                2 => Some(-(r.below(50) as i64)),
                3 => Some(*r.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1])),
                _ => Some(r.below(40) as i64 * 10),
            };
            p.description = Some(format!("tag{i}"));
            p
        })
        .collect()
}
/// an orderer and, independently of how it describes itself, what it was asked to do
fn gen_orderer(r: &mut Rng, depth: usize) -> (Box<dyn PackageOrder>, Value) {
    let fams = |r: &mut Rng| -> Option<Vec<String>> {
        if r.chance(1, 2) {
            None
        } else {
            let k = r.below(4);
            Some((0..k).map(|_| r.pick(&FAMS).to_string()).collect())
        }
    };
    let k = if depth == 0 { r.below(4) } else { r.below(6) };
    match k {
        0 => (Box::new(NullPackageOrder::new(fams(r))), json!({"type": "no_order"})),
        1 => {
            let d = r.chance(1, 2);
            (Box::new(SortedOrder::new(d, fams(r))), json!({"type": "sorted", "descending": d}))
        }
        2 => {
            let v = *r.pick::<&str>(&VERS);
            (Box::new(VersionSplitPackageOrder::new(Version::parse(v).unwrap(), fams(r))), json!({"type": "version_split", "first_version": v}))
        }
        3 => {
            let t = match r.below(6) {
                0 => *r.pick(&[i64::MIN, i64::MAX, 0, -1]),
                _ => r.below(40) as i64 * 10 + r.below(2) as i64,
            };
            (Box::new(TimestampPackageOrder::new(t, r.below(9) as i32 - 4, fams(r))), json!({"type": "soft_timestamp", "timestamp": t}))
        }
        _ => {
            let mut d: HashMap<String, Box<dyn PackageOrder>> = HashMap::new();
            let mut spec = json!({"type": "per_family", "order_dict": {}, "default_order": null});
            for _ in 0..r.below(5) {
                let f = r.pick(&FAMS).to_string();
                let (o, s) = gen_orderer(r, depth - 1);
                spec["order_dict"][&f] = s;
                d.insert(f, o);
            }
            let mut def = None;
            if r.chance(1, 2) {
                let (o, s) = gen_orderer(r, depth - 1);
                spec["default_order"] = s;
                def = Some(o);
            }
            (Box::new(PerFamilyOrder::new(d, def)), spec)
        }
    }
}
fn tag(p: &Package) -> &str {
    p.description.as_deref().unwrap_or("")
}
/// every setting in `spec` is found in `pod`
fn states(spec: &Value, pod: &Value) -> bool {
    match spec {
        Value::Object(o) => o.iter().all(|(k, v)| states(v, pod.get(k).unwrap_or(&Value::Null))),
        other => other == pod,
    }
}
/// may `a` stand directly before `b` under the description of a non-family orderer?
fn may_precede(pod: &Value, a: &Package, b: &Package) -> bool {
    let byver = |desc: bool| match (&a.version, &b.version) {
        (Some(x), Some(y)) => {
            let c = x.cmp(y);
            if desc { c != Ordering::Less } else { c != Ordering::Greater }
        }
        (None, Some(_)) => false,
        _ => true,
    };
    match pod["type"].as_str().unwrap_or("") {
        "sorted" => byver(pod["descending"].as_bool().unwrap()),
        "version_split" => {
            let s = Version::parse(pod["first_version"].as_str().unwrap()).unwrap();
            let first = |p: &Package| p.version.as_ref().is_some_and(|v| *v <= s);
            match (first(a), first(b)) {
                (true, false) => true,
                (false, true) => false,
                _ => byver(false),
            }
        }
        "soft_timestamp" => {
            let t = pod["timestamp"].as_i64().unwrap();
            let (x, y) = (a.timestamp.unwrap_or(0), b.timestamp.unwrap_or(0));
            match (x <= t, y <= t) {
                (true, false) => true,
                (false, true) => false,
                _ => x >= y,
            }
        }
        _ => true,
    }
}
/// the result obeys what the orderer's own description says
fn obeys(pod: &Value, input: &[Package], out: &[Package]) -> Result<(), String> {
    match pod["type"].as_str().unwrap_or("") {
        "no_order" => {
            let same = input.iter().map(tag).eq(out.iter().map(tag));
            if same { Ok(()) } else { Err("an orderer that orders nothing changed the order".into()) }
        }
        "per_family" => {
            let mut seen: Vec<String> = vec![];
            for p in out {
                if seen.last() != Some(&p.name) {
                    if seen.contains(&p.name) {
                        return Err(format!("family {} is not contiguous", p.name));
                    }
                    seen.push(p.name.clone());
                }
            }
            for f in seen {
                let i: Vec<Package> = input.iter().filter(|p| p.name == f).cloned().collect();
                let o: Vec<Package> = out.iter().filter(|p| p.name == f).cloned().collect();
                let sub = match pod["order_dict"].get(&f) {
                    Some(x) => x.clone(),
                    None => pod["default_order"].clone(),
                };
                let sub = if sub.is_null() { json!({"type": "no_order"}) } else { sub };
                obeys(&sub, &i, &o).map_err(|e| format!("in family {f}: {e}"))?;
            }
            Ok(())
        }
        _ => {
            for w in out.windows(2) {
                if !may_precede(pod, &w[0], &w[1]) {
                    return Err(format!("{} before {}", show(&w[0]), show(&w[1])));
                }
                // packages it cannot tell apart stay as they came
                let at = |p: &Package| input.iter().position(|q| tag(q) == tag(p));
                if may_precede(pod, &w[1], &w[0]) && at(&w[0]) > at(&w[1]) {
                    return Err(format!("{} and {} are alike and changed places", show(&w[0]), show(&w[1])));
                }
            }
            Ok(())
        }
    }
}
fn show(p: &Package) -> String {
    format!("{}-{}@{:?}#{}", p.name, p.version.as_ref().map(|v| v.to_string()).unwrap_or_default(), p.timestamp, tag(p))
}
pub fn o01(m: &mut Mon) {
    m.describe(
        "generated package lists (duplicates, missing versions and timestamps, extreme times) go through generated orderers, alone, nested per family and in lists; each result is judged against the orderer's own description: a permutation, sorted by its criterion, the same again, the same after the orderer is cloned or written and read",
        &["version comparison itself is judged by V01"],
        15000,
    );
    let n = m.size(6000, 20);
    let mut r = m.rng(1);
    for _ in 0..n {
        let pk = gen_packages(&mut r);
        let (o, spec) = gen_orderer(&mut r, 2);
        let pod = o.to_pod();
        m.seen(&pod.to_string());
        m.count(pod["type"].as_str().unwrap_or("?"), 1);
        let ctx = || json!({"orderer": pod, "packages": pk.iter().map(show).collect::<Vec<_>>()});
        let Some(res) = m.guard("ordering never crashes", ctx, || o.reorder(&pk)) else { continue };
        // None: the order is left as it is
        let out = res.clone().unwrap_or_else(|| pk.clone());
        let mut a: Vec<String> = pk.iter().map(show).collect();
        let mut b: Vec<String> = out.iter().map(show).collect();
        a.sort();
        b.sort();
        m.check("an orderer keeps every package exactly once", a == b, || json!({"case": ctx(), "got": out.iter().map(show).collect::<Vec<_>>()}));
        let ob = obeys(&spec, &pk, &out);
        m.check("an orderer orders by what it describes", ob.is_ok(), || json!({"case": ctx(), "got": out.iter().map(show).collect::<Vec<_>>(), "why": ob}));
        m.check("a written orderer states what the orderer was made with", states(&spec, &pod), || json!({"case": ctx(), "made with": spec}));
        // the same again, cloned, and read back
        let tags = |v: &Option<Vec<Package>>| v.as_ref().map(|v| v.iter().map(|p| tag(p).to_string()).collect::<Vec<_>>());
        for _ in 0..3 {
            let again = o.clone_box().reorder(&pk);
            m.check("ordering is the same every time", tags(&again) == tags(&res), || json!({"case": ctx(), "first": tags(&res), "again": tags(&again)}));
        }
        m.check("a cloned orderer is the same orderer", o.clone_box().sha1() == o.sha1() && o.clone_box().to_pod() == pod, || ctx());
        match m.guard("reading an orderer never crashes", ctx, || from_pod(&pod)) {
            Some(Some(back)) => {
                m.check("an orderer read back is the same orderer", back.to_pod() == pod && back.sha1() == o.sha1() && back.name() == o.name() && back.packages() == o.packages(), || json!({"case": ctx(), "back": back.to_pod()}));
                let again = back.reorder(&pk);
                m.check("an orderer read back orders the same", tags(&again) == tags(&res), || json!({"case": ctx(), "first": tags(&res), "again": tags(&again)}));
            }
            Some(None) => {
                m.check("every written orderer can be read", false, || ctx());
            }
            None => {}
        }
        // sha1: different orderers differ
        let other = gen_orderer(&mut r, 2).0;
        if other.to_pod() != pod {
            m.check("different orderers have different fingerprints", other.sha1() != o.sha1(), || json!({"a": pod, "b": other.to_pod()}));
        }
        // lists: the first orderer that applies to a family
        let mut list = PackageOrderList::new();
        for _ in 0..r.below(5) {
            list.append(gen_orderer(&mut r, 1).0);
        }
        let pods = list.to_pod();
        let back = PackageOrderList::from_pod(&pods);
        m.check("a list of orderers reads back as the same list", back.to_pod() == pods, || json!({"list": pods, "back": back.to_pod()}));
        for f in FAMS {
            let want = list.orderers.iter().find(|o| o.packages().is_none_or(|p| p.iter().any(|x| x == f))).map(|o| o.sha1());
            let got = list.get(f).map(|o| o.sha1());
            m.check("a family is ordered by the first orderer that applies to it", got == want, || json!({"list": pods, "family": f}));
            let g = get_orderer(f, Some(&list)).to_pod();
            let want = list.get(f).map(|o| o.to_pod()).unwrap_or_else(|| NullPackageOrder::new(None).to_pod());
            m.check("the orderer chosen for a family is the list's or none", g == want, || json!({"list": pods, "family": f, "got": g}));
        }
        // damaged descriptions are no orderer, or a whole one
        let mut bad = pod.clone();
        if let Some(map) = bad.as_object_mut() {
            let keys: Vec<String> = map.keys().cloned().collect();
            let k = r.pick(&keys).clone();
            match r.below(3) {
                0 => {
                    map.remove(&k);
                }
                1 => {
                    map.insert(k, json!([{"a": 1}]));
                }
                _ => {
                    map.insert(k, json!("x-"));
                }
            }
        }
        m.guard("reading a damaged orderer never crashes", || json!({"pod": bad}), || from_pod(&bad).map(|o| o.reorder(&pk)));
        if m.full() || m.out_of_time() {
            break;
        }
    }
    m.sample(json!(format!("{n} orderers judged")));
}

// ---------------------------------------------------------------- U01
#[derive(Clone, Debug, PartialEq, Default)]
struct MCtx {
    name: String,
    requests: Vec<String>,
    aliases: BTreeMap<String, String>,
    hidden: Vec<String>,
    prefix: Option<String>,
    priority: i32,
    disabled: bool,
}
#[derive(Clone, Debug, PartialEq)]
struct MSuite {
    ctxs: Vec<MCtx>,
    desc: Option<String>,
    mode: ToolConflictMode,
}
fn mode_name(m: &ToolConflictMode) -> &'static str {
    match m {
        ToolConflictMode::Error => "error",
        ToolConflictMode::First => "first",
        ToolConflictMode::Last => "last",
        ToolConflictMode::Prefix => "prefix",
    }
}
/// name -> (original, context, first request); Err: the conflicting name
type Tools = BTreeMap<String, (String, String, String)>;
fn model_tools(s: &MSuite) -> Result<Tools, ()> {
    let mut t: Tools = BTreeMap::new();
    for c in s.ctxs.iter().filter(|c| !c.disabled) {
        for (alias, orig) in &c.aliases {
            if c.hidden.contains(orig) {
                continue;
            }
            let e = (orig.clone(), c.name.clone(), c.requests.first().cloned().unwrap_or_default());
            if !t.contains_key(alias) {
                t.insert(alias.clone(), e);
                continue;
            }
            match s.mode {
                ToolConflictMode::Error => return Err(()),
                ToolConflictMode::First => {}
                ToolConflictMode::Last => {
                    t.insert(alias.clone(), e);
                }
                ToolConflictMode::Prefix => {
                    let k = format!("{}_{}", c.name, alias);
                    if t.contains_key(&k) {
                        return Err(());
                    }
                    t.insert(k, e);
                }
            }
        }
    }
    Ok(t)
}
/// with prefixes, a name made up for a conflict may collide with a later tool
/// whose name contains it; which of the two is renamed is not promised
fn ambiguous(s: &MSuite) -> bool {
    if s.mode != ToolConflictMode::Prefix {
        return false;
    }
    let all: Vec<&String> = s.ctxs.iter().flat_map(|c| c.aliases.keys()).collect();
    all.iter().any(|k| s.ctxs.iter().any(|c| k.starts_with(&format!("{}_", c.name))))
}
fn read_suite(s: &Suite) -> MSuite {
    MSuite {
        ctxs: s
            .contexts()
            .iter()
            .map(|c| MCtx {
                name: c.name.clone(),
                requests: c.requests.clone(),
                aliases: c.tool_aliases.clone().into_iter().collect(),
                hidden: c.hidden_tools.clone(),
                prefix: c.prefix.clone(),
                priority: c.priority,
                disabled: c.disabled,
            })
            .collect(),
        desc: s.description.clone(),
        mode: s.conflict_mode.clone(),
    }
}
const HOSTILE: [&str; 18] = [
    "yes", "null", "~", "1.0", "0x1F", "a: b", "# not a comment", "- item", "line\nbreak", "tab\there", "quote ' \" `", "ünï ✓", "  lead", "trail  ", "", "{a: [1]}", "%tag !!str &a *b", "\u{85}\u{2028}\u{7f}",
];
fn judge_suite(m: &mut Mon, model: &MSuite, s: &Suite, hist: &[String]) {
    let got = read_suite(s);
    m.check("a suite holds exactly what its history put there", got == *model, || json!({"history": hist, "want": format!("{model:?}"), "got": format!("{got:?}")}));
    m.check("contexts are listed in the order they were added", s.context_names() == model.ctxs.iter().map(|c| c.name.as_str()).collect::<Vec<_>>() && s.len() == model.ctxs.len() && s.is_empty() == model.ctxs.is_empty(), || json!({"history": hist}));
    let want = model_tools(model);
    let run = |s: &Suite| -> Result<Tools, ()> {
        let t = s.get_tools().map_err(|_| ())?;
        let mut out = Tools::new();
        for (k, v) in t {
            if k != v.name {
                return Ok(BTreeMap::from([(format!("{k} is called {}", v.name), (String::new(), String::new(), String::new()))]));
            }
            out.insert(k, (v.original_name, v.context_name, v.package));
        }
        Ok(out)
    };
    let g1 = run(s);
    let g2 = run(s);
    m.check("the tools of a suite are the same every time", g1 == g2, || json!({"history": hist, "one": format!("{g1:?}"), "two": format!("{g2:?}")}));
    m.count(&format!("tools/{}/{}", mode_name(&model.mode), if want.is_ok() { "ok" } else { "conflict" }), 1);
    if ambiguous(model) {
        // every visible tool keeps an entry, or the conflict is reported
        let total: usize = model.ctxs.iter().filter(|c| !c.disabled).map(|c| c.aliases.values().filter(|o| !c.hidden.contains(o)).count()).sum();
        m.check("no tool silently replaces another", g1.as_ref().map_or(true, |t| t.len() == total), || json!({"history": hist, "got": format!("{g1:?}"), "tools": total}));
    } else {
        m.check("tools are exposed by the conflict rule of the suite", g1 == want, || json!({"history": hist, "mode": mode_name(&model.mode), "want": format!("{want:?}"), "got": format!("{g1:?}"), "suite": format!("{model:?}")}));
    }
}
fn gen_name(r: &mut Rng) -> String {
    r.pick(&["maya", "nuke", "dev", "MAYA", "Dev", "a-b", "x_y", "Ünï", "maya_x", "1", "bad name", "", "a/b", "../up", "a.b", "n\n", "m!"]).to_string()
}
fn valid_name(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '-' || c == '_')
}
pub fn u01(m: &mut Mon) {
    m.describe(
        "histories of suite operations, through the library and through rez-next suites, run beside a model of contexts, aliases, hidden tools and conflict rules; the suite, its tools and its saved and reloaded form are compared after every step",
        &["tool names are those given by aliases, which is what the suite records"],
        12000,
    );
    let n = m.size(600, 15);
    let mut r = m.rng(1);
    let modes = [ToolConflictMode::Error, ToolConflictMode::First, ToolConflictMode::Last, ToolConflictMode::Prefix];
    let toolnames = ["tool", "py", "maya_tool", "nuke_py", "x", "tool", "dev_tool", "maya_py"];
    for it in 0..n {
        let cli = it % 4 == 3;
        let d = util::fresh("suite");
        let path = d.join("s1");
        let mode = r.pick(&modes).clone();
        let desc = if r.chance(1, 2) { Some(if cli { "some text".to_string() } else { r.pick(&HOSTILE).to_string() }) } else { None };
        let mut model = MSuite { ctxs: vec![], desc: desc.clone(), mode: mode.clone() };
        let mut hist: Vec<String> = vec![format!("new {} cli={cli}", mode_name(&mode))];
        let mut s = Suite::new().with_conflict_mode(mode.clone());
        if let Some(x) = &desc {
            s = s.with_description(x.clone());
        }
        let p = path.display().to_string();
        let call = |args: &[&str]| -> (bool, String) {
            let mut v: Vec<String> = vec!["suites".into()];
            v.extend(args.iter().map(|x| x.to_string()));
            let (c, o, e) = rez(&v, &d);
            (c == 0, format!("{o}{e}"))
        };
        if cli {
            let mut a = vec!["create", p.as_str(), "--conflict-mode", mode_name(&mode)];
            if let Some(x) = &desc {
                a.extend(["-d", x.as_str()]);
            }
            let (ok, t) = call(&a);
            m.check("a suite can be created", ok, || json!({"output": t}));
        }
        for _ in 0..r.range(3, if cli { 8 } else { 16 }) {
            let mut name = if cli { r.pick(&["maya", "nuke", "dev", "a-b", "bad name", "Maya"]).to_string() } else { gen_name(&mut r) };
            if !model.ctxs.is_empty() && r.chance(1, 2) {
                name = r.pick(&model.ctxs).name.clone();
            }
            let known = model.ctxs.iter().position(|c| c.name == name);
            let text = |r: &mut Rng| if cli || r.chance(2, 3) { r.pick(&toolnames).to_string() } else { r.pick(&HOSTILE).to_string() };
            let (op, want_ok, got_ok): (String, bool, bool) = match r.below(12) {
                0..=3 => {
                    let k = if cli { r.range(1, 2) } else { r.below(3) };
                    let req: Vec<String> = (0..k).map(|i| if cli { format!("pkg{i}-1") } else { r.pick(&HOSTILE).to_string() }).collect();
                    let prefix = if cli && r.chance(1, 2) { Some("pre_".to_string()) } else { None };
                    let prio = if cli && r.chance(1, 2) { r.below(9) as i32 } else { 0 };
                    let want = valid_name(&name) && known.is_none();
                    let got = if cli {
                        let ps = prio.to_string();
                        let mut a = vec!["add-context", p.as_str(), name.as_str()];
                        a.extend(req.iter().map(|x| x.as_str()));
                        if let Some(x) = &prefix {
                            a.extend(["--prefix", x.as_str()]);
                        }
                        if prio != 0 {
                            a.extend(["--priority", ps.as_str()]);
                        }
                        call(&a).0
                    } else {
                        s.add_context(name.clone(), req.clone()).is_ok()
                    };
                    if want {
                        model.ctxs.push(MCtx { name: name.clone(), requests: req, prefix, priority: prio, ..Default::default() });
                    }
                    ("add".into(), want, got)
                }
                4 => {
                    let want = known.is_some();
                    let got = if cli { call(&["remove-context", &p, &name]).0 } else { s.remove_context(&name).is_ok() };
                    if let Some(i) = known {
                        model.ctxs.remove(i);
                    }
                    ("remove".into(), want, got)
                }
                5..=8 => {
                    let (al, to) = (text(&mut r), text(&mut r));
                    let want = known.is_some();
                    let got = if cli { call(&["alias-tool", &p, &name, &al, &to]).0 } else { s.alias_tool(&name, al.clone(), to.clone()).is_ok() };
                    if let Some(i) = known {
                        model.ctxs[i].aliases.insert(al.clone(), to.clone());
                    }
                    (format!("alias {al:?}={to:?}"), want, got)
                }
                9 => {
                    let to = text(&mut r);
                    let want = known.is_some();
                    let got = if cli { call(&["hide-tool", &p, &name, &to]).0 } else { s.hide_tool(&name, &to).is_ok() };
                    if let Some(i) = known
                        && !model.ctxs[i].hidden.contains(&to)
                    {
                        model.ctxs[i].hidden.push(to.clone());
                    }
                    (format!("hide {to:?}"), want, got)
                }
                10 if cli => {
                    // creating a suite where one exists must not destroy it
                    let got = call(&["create", &p]).0;
                    ("create again".into(), false, got)
                }
                10 => {
                    let Some(i) = known else { continue };
                    let c = s.get_context_mut(&name).unwrap();
                    match r.below(3) {
                        0 => {
                            c.disabled = !c.disabled;
                            model.ctxs[i].disabled = c.disabled;
                        }
                        1 => {
                            c.priority = r.below(20) as i32 - 10;
                            model.ctxs[i].priority = c.priority;
                        }
                        _ => {
                            c.prefix = Some(r.pick(&HOSTILE).to_string());
                            model.ctxs[i].prefix = c.prefix.clone();
                        }
                    }
                    ("set".into(), true, true)
                }
                _ => {
                    if cli {
                        let (ok, t) = call(&["info", &p]);
                        let all = model.ctxs.iter().all(|c| t.contains(&c.name));
                        ("info".into(), true, ok && all)
                    } else {
                        let same = model.ctxs.iter().all(|c| s.get_context(&c.name).is_some_and(|x| x.requests == c.requests));
                        let none = s.get_context("absent-context").is_none();
                        ("get".into(), true, same && none)
                    }
                }
            };
            hist.push(format!("{op} {name:?}"));
            crumb(format!("U01 {hist:?}"));
            m.check("an operation succeeds exactly when it applies", want_ok == got_ok, || json!({"history": hist, "want": want_ok, "got": got_ok}));
            if cli {
                match Suite::load(&path) {
                    Ok(x) => s = x,
                    Err(e) => {
                        m.check("a suite on disk stays loadable", false, || json!({"history": hist, "error": e.to_string()}));
                        break;
                    }
                }
            }
            judge_suite(m, &model, &s, &hist);
            if cli {
                // the printed tools are the suite's tools
                let (ok, t) = call(&["tools", "-v", &p]);
                if let (Ok(want), false) = (model_tools(&model), ambiguous(&model)) {
                    let rows: BTreeMap<String, (String, String)> = t.lines().filter(|l| !l.starts_with("TOOL") && !l.starts_with("----")).filter_map(|l| {
                        let w: Vec<&str> = l.split_whitespace().collect();
                        (w.len() == 3).then(|| (w[0].to_string(), (w[1].to_string(), w[2].to_string())))
                    }).collect();
                    let want: BTreeMap<String, (String, String)> = want.into_iter().map(|(k, (_, c, q))| (k, (c, q))).collect();
                    m.check("the printed tools are the tools of the suite", ok && rows == want, || json!({"history": hist, "output": t, "want": format!("{want:?}")}));
                } else if model_tools(&model).is_err() && !ambiguous(&model) {
                    m.check("a conflict is reported and not resolved silently", !ok, || json!({"history": hist, "output": t}));
                }
            } else if r.chance(1, 3) {
                let saved = m.guard("saving never crashes", || json!({"history": hist}), || s.save(&path));
                if let Some(Err(e)) = &saved {
                    m.check("a suite can be saved", false, || json!({"history": hist, "error": e.to_string()}));
                    continue;
                }
                let back = Suite::load(&path);
                m.check("a directory with a saved suite is a suite", Suite::is_suite(&path), || json!({"history": hist}));
                match back {
                    Ok(b) => {
                        judge_suite(m, &model, &b, &hist);
                        m.check("a saved suite knows its path", b.path.as_ref() == Some(&path), || json!({"history": hist}));
                        s = b;
                    }
                    Err(e) => {
                        m.check("a saved suite loads", false, || json!({"history": hist, "error": e.to_string()}));
                    }
                }
                // a save that fails leaves the saved suite as it was
                if r.chance(1, 4) {
                    use std::os::unix::fs::PermissionsExt;
                    let f = path.join("suite.yaml");
                    let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o444));
                    let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o555));
                    let mut other = s.clone();
                    let _ = other.add_context("extra-one", vec![]);
                    let res = other.save(&path);
                    let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o755));
                    let after = Suite::load(&path).map(|x| read_suite(&x));
                    let fine = res.is_err() && after.as_ref().is_ok_and(|a| *a == model);
                    m.check("a failed save is reported and leaves the saved suite", fine, || json!({"history": hist, "after": format!("{after:?}")}));
                    let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o644));
                }
            }
            if m.full() || m.out_of_time() {
                break;
            }
        }
        m.seen(&format!("{hist:?}"));
        // discovery: every suite below the given paths, and the first path wins
        let dirs: Vec<PathBuf> = (0..r.range(1, 3)).map(|i| d.join(format!("path{i}"))).collect();
        let mut want: Vec<(PathBuf, String)> = vec![];
        for (i, b) in dirs.iter().enumerate() {
            if r.chance(1, 5) {
                continue; // a missing path
            }
            std::fs::create_dir_all(b).unwrap();
            util::write(b.join("plainfile"), "x");
            util::write(b.join("notasuite/readme"), "x");
            for name in ["alpha", "beta", "gamma"] {
                if r.chance(1, 2) {
                    let mut x = Suite::new().with_description(format!("{i}/{name}"));
                    if x.save(b.join(name)).is_ok() {
                        want.push((b.clone(), name.to_string()));
                    }
                }
            }
        }
        // a damaged suite is reported, never replaced by another one of that name
        if let Some((b, n)) = want.first().filter(|_| r.chance(1, 4)) {
            let keep = std::fs::read(b.join(n).join("suite.yaml")).unwrap();
            std::fs::write(b.join(n).join("suite.yaml"), "contexts: [").unwrap();
            let got = SuiteManager::with_paths(dirs.clone()).load_suite(n);
            m.check("a damaged suite is reported", got.is_err(), || json!({"suite": n, "loaded": got.ok().map(|s| format!("{:?}", s.path))}));
            std::fs::write(b.join(n).join("suite.yaml"), keep).unwrap();
        }
        let mgr = SuiteManager::with_paths(dirs.clone());
        let mut got = mgr.find_suites();
        got.sort();
        let mut w: Vec<PathBuf> = want.iter().map(|(b, n)| b.join(n)).collect();
        w.sort();
        m.check("discovery finds every suite and nothing else", got == w, || json!({"got": format!("{got:?}"), "want": format!("{w:?}")}));
        for name in ["alpha", "beta", "gamma", "notasuite", "plainfile"] {
            let first = want.iter().find(|(_, n)| n == name).map(|(b, n)| b.join(n));
            let g = mgr.load_suite(name).ok().and_then(|s| s.path);
            m.check("a suite is loaded from the first path that has it", g == first, || json!({"name": name, "got": format!("{g:?}"), "want": format!("{first:?}")}));
            let names = mgr.list_suite_names();
            m.check("listed names are the suites that can be loaded", names.iter().any(|x| x == name) == first.is_some(), || json!({"name": name, "names": names}));
        }
        util::rm(&d);
        if m.full() || m.out_of_time() {
            break;
        }
    }
}

// ---------------------------------------------------------------- G01
fn glob(p: &[char], t: &[char]) -> bool {
    match p.first() {
        None => t.is_empty(),
        Some('*') => (0..=t.len()).any(|i| glob(&p[1..], &t[i..])),
        Some('?') => !t.is_empty() && glob(&p[1..], &t[1..]),
        Some(c) => t.first() == Some(c) && glob(&p[1..], &t[1..]),
    }
}
#[derive(Clone, Debug)]
enum MRule {
    Glob(&'static str, String),
    Regex(&'static str, &'static str),
    Range(Option<String>, String),
    Time(bool, i64),
}
fn field<'a>(p: &'a Package, f: &str) -> Option<String> {
    match f {
        "name" => Some(p.name.clone()),
        "version" => p.version.as_ref().map(|v| v.to_string()),
        _ => Some(p.description.clone().unwrap_or_default()),
    }
}
/// the meaning of each expression in the table, written by hand
fn regex_says(re: &str, t: &str) -> bool {
    match re {
        "^maya" => t.starts_with("maya"),
        "beta$" => t.ends_with("beta"),
        r"\.beta" => t.contains(".beta"),
        "^py(thon)?$" => t == "py" || t == "python",
        "[0-9]+" => t.chars().any(|c| c.is_ascii_digit()),
        "(?i)MAYA" => t.to_lowercase().contains("maya"),
        "a:b" => t.contains("a:b"),
        "^$" => t.is_empty(),
        _ => unreachable!(),
    }
}
const REGEXES: [&str; 8] = ["^maya", "beta$", r"\.beta", "^py(thon)?$", "[0-9]+", "(?i)MAYA", "a:b", "^$"];
impl MRule {
    fn text(&self, r: &mut Rng) -> String {
        match self {
            MRule::Glob("name", p) if !p.contains(':') && r.chance(1, 2) => {
                if (p.contains('*') || p.contains('?')) && !p.contains('(') && r.chance(1, 2) { p.clone() } else { format!("glob({p})") }
            }
            MRule::Glob(f, p) => format!("glob({f}:{p})"),
            MRule::Regex(f, p) => {
                if *f == "name" && !p.contains(':') && r.chance(1, 2) { format!("regex({p})") } else { format!("regex({f}:{p})") }
            }
            MRule::Range(f, v) => {
                let t = match f {
                    Some(f) => format!("{f}-{v}"),
                    None => v.clone(),
                };
                if r.chance(1, 2) { t } else { format!("range({t})") }
            }
            MRule::Time(b, t) => format!("{}({t})", if *b { "before" } else { "after" }),
        }
    }
    fn matches(&self, p: &Package) -> bool {
        match self {
            MRule::Glob(f, g) => field(p, f).is_some_and(|t| glob(&g.chars().collect::<Vec<_>>(), &t.chars().collect::<Vec<_>>())),
            MRule::Regex(f, re) => field(p, f).is_some_and(|t| regex_says(re, &t)),
            MRule::Range(f, v) => {
                let range = rez_next_version::VersionRange::parse(v).unwrap();
                f.as_ref().is_none_or(|f| *f == p.name) && p.version.as_ref().is_some_and(|v| range.contains(v))
            }
            MRule::Time(b, t) => p.timestamp.is_some_and(|x| x >= 0 && if *b { x < *t } else { x > *t }),
        }
    }
}
fn gen_rule(r: &mut Rng) -> MRule {
    match r.below(6) {
        0 | 1 => {
            let mut p = r.pick(&["maya", "py", "*", "?", "a+b", "1.0", "x\\y", "[a]", "{1}", "^p", "$", "beta", "|", "a.b", "(x)", "#", "a b", "é", "&&", "~", "-", "\\d", "maya.beta", "a:b", " ", " a", "a ", "  x.beta"]).to_string();
            for _ in 0..r.below(3) {
                let i = (0..=p.len()).filter(|i| p.is_char_boundary(*i)).nth(r.below(p.chars().count() + 1)).unwrap();
                p.insert_str(i, r.pick(&["*", "?", ".", "**"]));
            }
            MRule::Glob(r.pick(&["name", "version", "description"]), p)
        }
        2 => MRule::Regex(r.pick(&["name", "description"]), r.pick(&REGEXES)),
        3 | 4 => {
            let fam = if r.chance(1, 2) { Some(r.pick(&FAMS).to_string()) } else { None };
let dash = fam.is_some() && r.chance(1, 5);
            let v = if dash { r.pick(&["1.0-1", "==1.0-1"]).to_string() } else { r.pick(&["1", "1.0", ">=1.0", "<2", ">=1.0,<2.0", "1.0..2.0", "2.0", "10", "1|2", ">1", "<=1.0", "==1.0"]).to_string() };
            MRule::Range(fam, v)
        }
        _ => MRule::Time(r.chance(1, 2), *r.pick(&[0, 1, 100, 200, 390, i64::MAX, 1704067200])),
    }
}
pub fn g01(m: &mut Mon) {
    use rez_next_package_filter::{PackageFilter, RuleMatch, parse_rule};
    m.describe(
        "generated filters of glob, regular expression, range and time rules, given as text, are applied to generated packages and judged against an independent reading of each rule; the filter is also written, read back and rebuilt",
        &["version comparison and ranges themselves are judged by V01 and V02", "regular expressions are drawn from a table with hand-written meanings"],
        15000,
    );
    let n = m.size(1500, 20);
    let mut r = m.rng(1);
    for _ in 0..n {
        let mut f = PackageFilter::new();
        let (mut ex, mut inc): (Vec<MRule>, Vec<MRule>) = (vec![], vec![]);
        let mut txts: Vec<String> = vec![];
        for _ in 0..r.range(0, 4) {
            let rule = gen_rule(&mut r);
            let t = rule.text(&mut r);
            let inclusion = r.chance(1, 3);
            let ok = m.guard("adding a rule never crashes", || json!({"rule": t}), || if inclusion { f.add_inclusion_from_str(&t) } else { f.add_exclusion_from_str(&t) }.is_ok());
            if ok != Some(true) {
                m.check("a well-formed rule is accepted", false, || json!({"rule": t, "model": format!("{rule:?}")}));
                continue;
            }
            m.count(match &rule { MRule::Glob(..) => "glob", MRule::Regex(..) => "regex", MRule::Range(..) => "range", MRule::Time(..) => "time" }, 1);
            txts.push(format!("{}{t}", if inclusion { "+" } else { "-" }));
            if inclusion { inc.push(rule) } else { ex.push(rule) }
        }
        m.seen(&txts);
        let pods = f.to_pod();
        let back = m.guard("reading a filter never crashes", || json!({"rules": txts}), || PackageFilter::from_pod(&pods));
        let js = serde_json::to_string(&f).ok().and_then(|t| serde_json::from_str::<PackageFilter>(&t).ok());
        let mut forms: Vec<(&str, PackageFilter)> = vec![("itself", f.clone())];
        match back {
            Some(Ok(b)) => {
                m.check("a filter read back has the same rules and fingerprint", b.to_pod() == pods && b.sha1() == f.sha1() && b.to_string() == f.to_string(), || json!({"rules": txts, "pod": format!("{pods:?}"), "back": format!("{:?}", b.to_pod())}));
                forms.push(("read back", b));
            }
            _ => {
                m.check("a written filter can be read", false, || json!({"rules": txts, "pod": format!("{pods:?}")}));
            }
        }
        if !ex.is_empty() && !inc.is_empty() {
            match js {
                Some(j) => forms.push(("through JSON", j)),
                None => {
                    m.check("a filter survives JSON", false, || json!({"rules": txts}));
                }
            }
        }
        for _ in 0..6 {
            let mut p = Package::new(r.pick(&["maya", "nuke", "python", "py", "Maya", "maya.beta", "a+b", "x\\y", "[a]", "a b", "line\nbreak", "é", "#", "&&", "a.b", "axb", "1", "(x)", "\\d", "7", "-", "a:b", " a", "a ", "a"]).to_string());
            if !r.chance(1, 6) {
                p.version = Version::parse(r.pick::<&str>(&VERS)).ok();
            }
            if r.chance(1, 2) {
                p.description = Some(r.pick(&["", "maya", "a beta", "x.beta", "two\nlines maya", "a:b", "x\\y", "1.0", " a", "a ", "  x.beta", " "]).to_string());
            }
            p.timestamp = *r.pick(&[None, Some(0), Some(1), Some(99), Some(100), Some(101), Some(-5), Some(i64::MAX), Some(1704067200)]);
            let included = inc.iter().any(|x| x.matches(&p));
            let want = if included { None } else { ex.iter().position(|x| x.matches(&p)) };
            for (form, f) in &forms {
                let Some(got) = m.guard("filtering never crashes", || json!({"rules": txts}), || f.excludes(&p).is_some()) else { continue };
                m.check("a filter excludes exactly what its rules describe", got == want.is_some(), || json!({"rules": txts, "package": show(&p), "description": p.description, "form": form, "excluded": got, "want": want.is_some()}));
                m.check("a package is included unless it is excluded", f.includes(&p) != got, || json!({"rules": txts, "package": show(&p), "form": form}));
                if let Some(i) = want.filter(|_| got) {
                    // the rule named is one that does match
                    let named = f.excludes(&p).unwrap();
                    let t = format!("{}({})", named.rule_type, named.pattern);
                    let says = parse_rule(&t).is_ok_and(|x| x.apply(&p) == RuleMatch::Matches);
                    m.check("the rule named for an exclusion matches the package", says, || json!({"rules": txts, "package": show(&p), "named": t, "index": i}));
                }
            }
        }
        // a rule limited to a family matches no other family
        {
            use rez_next_package_filter::*;
            let fam = *r.pick(&["maya", "py"]);
            let p = Package { name: (*r.pick(&["maya", "py", "nuke"])).to_string(), version: Version::parse("1.0").ok(), timestamp: Some(50), ..Default::default() };
            let rules: Vec<Box<dyn Rule>> = vec![
                Box::new(GlobRule::new("*", GlobField::Name, Some(fam)).unwrap()),
                Box::new(RegexRule::new(".", RegexField::Name, Some(fam)).unwrap()),
                Box::new(RangeRule::new("1.0", Some(fam)).unwrap()),
                Box::new(TimestampRule::new(std::time::UNIX_EPOCH + std::time::Duration::from_secs(100), true, Some(fam))),
            ];
            for x in rules {
                let got = x.apply(&p) == RuleMatch::Matches;
                m.check("a rule for one family matches that family only", got == (p.name == fam), || json!({"rule": x.to_string(), "family": fam, "package": p.name}));
            }
        }
        // fingerprints tell filters apart
        {
            let (a, b) = (gen_rule(&mut r), gen_rule(&mut r));
            let mk = |l: &[String], k: &[bool]| {
                let mut f = PackageFilter::new();
                l.iter().zip(k).all(|(t, inc)| if *inc { f.add_inclusion_from_str(t) } else { f.add_exclusion_from_str(t) }.is_ok()).then_some(f)
            };
            let (ta, tb) = (a.text(&mut r), b.text(&mut r));
            let turned = |t: &str| match t.split_once('(') {
                Some((k, v)) if k == "glob" && !v.contains(':') => format!("glob({})", v[..v.len() - 1].chars().rev().collect::<String>()),
                _ => t.to_string(),
            };
            let sets = [(vec![ta.clone()], vec![false]), (vec![ta.clone()], vec![true]), (vec![tb.clone()], vec![false]), (vec![ta.clone(), tb.clone()], vec![false, true]), (vec![tb.clone(), ta.clone()], vec![false, true]), (vec![turned(&ta)], vec![false])];
            let fs: Vec<PackageFilter> = sets.iter().filter_map(|(l, k)| mk(l, k)).collect();
            for x in &fs {
                for y in &fs {
                    m.check("filters with different rules have different fingerprints", (x.to_pod() == y.to_pod()) == (x.sha1() == y.sha1()), || json!({"a": format!("{:?}", x.to_pod()), "b": format!("{:?}", y.to_pod())}));
                }
            }
        }
        // malformed text is refused
        let bad = *r.pick(&["glob(", "glob(x", "glob()", "regex(", "regex([)", "regex((", "before(x)", "before(-1)", "after()", "before(99999999999999999999)", "glob(color:x)", "regex(version:x)", "range(", "range(>=1"]);
        let got = m.guard("reading a malformed rule never crashes", || json!({"rule": bad}), || parse_rule(bad).is_err());
        m.check("a malformed rule is refused", got == Some(true), || json!({"rule": bad}));
        for key in ["exclusions", "inclusions"] {
            let pod = HashMap::from([(key.to_string(), vec!["glob(maya*)".to_string(), bad.to_string()])]);
            m.check("a filter with a malformed rule is refused", PackageFilter::from_pod(&pod).is_err(), || json!({"rule": bad, "list": key}));
        }
        if m.full() || m.out_of_time() {
            break;
        }
    }
}
