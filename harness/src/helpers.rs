//! H01: the dependency graph; W01: the shared helper functions.
use crate::builds::{Rec, parallel};
use crate::mon::{Mon, Rng, crumb};
use crate::util::{fresh, rm, write};
use rez_next_package::{Package, PackageRequirement};
use rez_next_solver::{ConflictResolution, ConflictResolver, ConflictStrategy, DependencyGraph};
use rez_next_version::Version;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- H01
/// what the history of calls says the graph is
#[derive(Default, Clone)]
struct Model {
    nodes: BTreeMap<String, String>,
    edges: BTreeSet<(String, String)>,
    excl: BTreeSet<String>,
    reqs: BTreeMap<String, Vec<String>>,
    cons: usize,
}
impl Model {
    fn reach(&self, from: &str) -> BTreeSet<String> {
        let mut seen = BTreeSet::from([from.to_string()]);
        let mut todo = vec![from.to_string()];
        while let Some(n) = todo.pop() {
            for (a, b) in &self.edges {
                if *a == n && seen.insert(b.clone()) {
                    todo.push(b.clone());
                }
            }
        }
        seen
    }
    /// longest chain of nodes, or nothing if there is a cycle
    fn depth(&self) -> Option<usize> {
        let mut left: BTreeSet<&String> = self.nodes.keys().collect();
        let mut d = 0;
        while !left.is_empty() {
            let leaves: Vec<&String> = left.iter().filter(|n| !self.edges.iter().any(|(a, b)| a == **n && left.contains(b))).copied().collect();
            if leaves.is_empty() {
                return None;
            }
            for l in leaves {
                left.remove(l);
            }
            d += 1;
        }
        Some(d)
    }
}
const NAMES: [&str; 8] = ["a", "b", "c", "lib", "py", "maya", "nuke", "x"];
const VS: [&str; 6] = ["1", "1.0", "2", "10.1", "1.0.beta", "3"];
const SPECS: [&str; 18] = ["2|4", "5|10", "1", "2", "1.0", "1+", "2+", "<2", "<=1", ">=3", ">1", "1..2", "1+<3", "==1.0", "==2", "1|3", "2..4", "10"];
fn key(n: &str, v: Option<&str>) -> String {
    v.map_or(n.to_string(), |v| format!("{n}-{v}"))
}
/// (ranges are judged by V02: what matters here is that the pairs are the right ones)
fn apart(a: &str, b: &str) -> bool {
    if a.is_empty() || b.is_empty() {
        return false;
    }
    let (Ok(x), Ok(y)) = (rez_next_version::VersionRange::parse(a), rez_next_version::VersionRange::parse(b)) else { return false };
    x.intersect(&y).is_none()
}
fn graph_state(g: &DependencyGraph) -> Value {
    let mut acc: Vec<(String, Vec<String>)> = g.accessibility().into_iter().collect();
    acc.sort();
    let st = g.get_stats();
    let mut conf: Vec<Value> = g
        .detect_conflicts()
        .iter()
        .map(|c| {
            let mut s = c.source_packages.clone();
            s.sort();
            json!({"package": c.package_name, "requirements": c.conflicting_requirements.iter().map(|q| q.to_string()).collect::<Vec<_>>(), "sources": s, "severity": format!("{:?}", c.severity)})
        })
        .collect();
    conf.sort_by_key(|v| v.to_string());
    json!({"reach": acc, "nodes": st.node_count, "edges": st.edge_count, "depth": st.max_depth, "constraints": st.constraint_count, "exclusions": st.exclusion_count, "conflicts": conf,
        "order": g.get_resolved_packages().ok().map(|p| p.iter().map(|p| key(&p.name, p.version.as_ref().map(|v| v.as_str()))).collect::<Vec<_>>())})
}
fn one_graph(m: &mut Mon, r: &mut Rng) {
    let mut g = DependencyGraph::new();
    let mut md = Model::default();
    let mut log: Vec<String> = vec![];
    let acyclic = r.chance(2, 3);
    // some histories are about one package that many depend on, some about one that is required many times
    let hub = r.chance(1, 4);
    let crowd = r.chance(1, 4);
    let steps = if hub || crowd { r.range(20, 90) } else { r.range(3, 40) };
    for step in 0..steps {
        let pick_key = |r: &mut Rng, md: &Model| -> String {
            if r.chance(9, 10) && !md.nodes.is_empty() {
                let k = if hub && r.chance(1, 3) { 0 } else { r.below(md.nodes.len()) };
                md.nodes.keys().nth(k).unwrap().clone()
            } else {
                key(r.pick::<&str>(&NAMES), Some(r.pick::<&str>(&VS)))
            }
        };
        match if crowd && r.chance(1, 3) { 19 } else { r.below(21) } {
            0..=6 => {
                let n = *r.pick::<&str>(&NAMES);
                let v = if r.chance(1, 8) { None } else { Some(*r.pick::<&str>(&VS)) };
                let mut p = Package::new(n.to_string());
                p.version = v.map(|v| Version::parse(v).unwrap());
                p.description = Some(format!("step {step}"));
                for _ in 0..if r.chance(1, 6) { r.range(3, 8) } else { r.below(3) } {
                    let t = *r.pick::<&str>(&SPECS);
                    let dash = if t.starts_with(|c: char| c.is_ascii_digit()) { "-" } else { "" };
                    p.requires.push(format!("{}{dash}{t}", r.pick::<&str>(&NAMES)));
                }
                log.push(format!("add {}", key(n, v)));
                let Some(ok) = m.guard("graph calls never crash", || json!(log), || g.add_package(p.clone()).is_ok()) else { return };
                let allowed = !md.excl.contains(n);
                m.check("a package is added unless it is excluded", ok == allowed, || json!({"history": log, "accepted": ok}));
                if allowed {
                    md.nodes.insert(key(n, v), format!("step {step}|{}", p.requires.join(" ")));
                }
            }
            7..=13 => {
                let (mut a, mut b) = (pick_key(r, &md), pick_key(r, &md));
                // in an acyclic history every edge leads to a smaller key
                if acyclic && a < b {
                    std::mem::swap(&mut a, &mut b);
                }
                if acyclic && a == b {
                    continue;
                }
                log.push(format!("edge {a} -> {b}"));
                let Some(ok) = m.guard("graph calls never crash", || json!(log), || g.add_dependency_edge(&a, &b).is_ok()) else { return };
                let allowed = md.nodes.contains_key(&a) && md.nodes.contains_key(&b);
                m.check("an edge is added exactly between packages of the graph", ok == allowed, || json!({"history": log, "accepted": ok}));
                if allowed {
                    md.edges.insert((a, b));
                }
            }
            14 | 15 if !hub || r.chance(1, 3) => {
                let a = pick_key(r, &md);
                log.push(format!("remove {a}"));
                let _ = m.guard("graph calls never crash", || json!(log), || g.remove_package(&a));
                md.nodes.remove(&a);
                md.edges.retain(|(x, y)| *x != a && *y != a);
            }
            16 if r.chance(1, 3) => {
                let n = r.pick::<&str>(&NAMES).to_string();
                log.push(format!("exclude {n}"));
                let _ = g.add_exclusion(n.clone());
                md.excl.insert(n);
            }
            17 => {
                let _ = g.add_constraint(PackageRequirement::parse("maya-1").unwrap());
                log.push("constrain maya-1".into());
                md.cons += 1;
            }
            20 => {
                // a conflict settled by hand
                let n = r.pick::<&str>(&NAMES).to_string();
                let v = r.chance(3, 4).then(|| r.pick::<&str>(&VS).to_string());
                let gone: Vec<String> = (0..r.below(3)).map(|_| pick_key(r, &md)).collect();
                log.push(format!("settle {n} at {v:?} removing {gone:?}"));
                let how = ConflictResolution { package_name: n.clone(), selected_version: v.as_deref().map(|v| Version::parse(v).unwrap()), strategy: "by hand".into(), modified_packages: gone.clone() };
                let Some(ok) = m.guard("graph calls never crash", || json!(log), || g.apply_conflict_resolution(how).is_ok()) else { return };
                m.check("a settled conflict is accepted", ok, || json!(log));
                for a in gone {
                    md.nodes.remove(&a);
                    md.edges.retain(|(x, y)| *x != a && *y != a);
                }
                if let (Some(q), Some(v)) = (md.reqs.get_mut(&n), v) {
                    *q = vec![v];
                }
            }
            18 if r.chance(1, 10) => {
                g.clear();
                log.push("clear".into());
                md = Model::default();
            }
            _ => {
                let n = if crowd { NAMES[r.below(2)] } else { *r.pick::<&str>(&NAMES) };
                let t = if r.chance(1, 8) {
                    ""
                } else if crowd && r.chance(7, 8) {
                    // mostly requirements that get along
                    *r.pick(&["0+", "1+", "<20", "<=10", "1+<30", "0..40", "2+", "1..19"])
                } else {
                    *r.pick::<&str>(&SPECS)
                };
                let mut q = if t.is_empty() { PackageRequirement::new(n.to_string()) } else { PackageRequirement::with_version(n.to_string(), t.to_string()) };
                q.weak = false;
                log.push(format!("require {n} {t}"));
                let _ = g.add_requirement(q);
                md.reqs.entry(n.to_string()).or_default().push(t.to_string());
            }
        }
        m.check("the graph holds as many packages as were put there", g.len() == md.nodes.len() && g.is_empty() == md.nodes.is_empty(), || json!({"history": log, "len": g.len()}));
    }
    m.seen(&log.join(";"));
    let ctx = |extra: Value| json!({"history": log, "edges": md.edges, "detail": extra});
    // what is reachable
    let Some(acc) = m.guard("graph calls never crash", || json!(log), || g.accessibility()) else { return };
    let got: BTreeMap<String, BTreeSet<String>> = acc.iter().map(|(k, v)| (k.clone(), v.iter().cloned().collect())).collect();
    let want: BTreeMap<String, BTreeSet<String>> = md.nodes.keys().map(|k| (k.clone(), md.reach(k))).collect();
    m.check("reachability is exactly the closure of the edges", got == want && acc.values().all(|v| v.len() == v.iter().collect::<BTreeSet<_>>().len()), || ctx(json!({"got": got, "expected": want})));
    // cycles
    let depth = md.depth();
    m.count(if depth.is_some() { "acyclic graphs" } else { "cyclic graphs" }, 1);
    let Some(cyc) = m.guard("graph calls never crash", || json!(log), || g.find_cycle()) else { return };
    m.check("a cycle is found exactly when there is one", cyc.is_some() == depth.is_none(), || ctx(json!({"found": cyc})));
    if let Some(c) = &cyc {
        let ok = !c.is_empty() && (0..c.len()).all(|i| md.edges.contains(&(c[i].clone(), c[(i + 1) % c.len()].clone()))) && c.iter().collect::<BTreeSet<_>>().len() == c.len();
        m.check("the reported cycle is a cycle of the graph, in order", ok, || ctx(json!({"found": c})));
    }
    // order
    let Some(res) = m.guard("graph calls never crash", || json!(log), || g.get_resolved_packages()) else { return };
    match res {
        Err(_) => {
            m.check("packages are listed exactly when there is no cycle", depth.is_none(), || ctx(json!("refused")));
        }
        Ok(ps) => {
            m.check("packages are listed exactly when there is no cycle", depth.is_some(), || ctx(json!("listed")));
            let keys: Vec<String> = ps.iter().map(|p| key(&p.name, p.version.as_ref().map(|v| v.as_str()))).collect();
            let mut s = keys.clone();
            s.sort();
            m.check("every package is listed exactly once", s.iter().eq(md.nodes.keys()), || ctx(json!({"listed": keys})));
            let same = ps.iter().zip(&keys).all(|(p, k)| md.nodes.get(k).is_some_and(|d| *d == format!("{}|{}", p.description.as_deref().unwrap_or(""), p.requires.join(" "))));
            m.check("a listed package is the one last added under its name and version", same, || ctx(json!({"listed": keys})));
            let at = |k: &String| keys.iter().position(|x| x == k);
            let bad = md.edges.iter().find(|(a, b)| at(a) >= at(b));
            m.check("a package is listed before everything it depends on", bad.is_none(), || ctx(json!({"listed": keys, "edge": bad})));
        }
    }
    // statistics
    let Some(st) = m.guard("graph calls never crash", || json!(log), || g.get_stats()) else { return };
    m.check("the statistics count the graph", st.node_count == md.nodes.len() && st.edge_count == md.edges.len() && st.constraint_count == md.cons && st.exclusion_count == md.excl.len(), || ctx(json!(format!("{st:?}"))));
    if let Some(d) = depth {
        m.check("the depth is the longest chain", st.max_depth == d, || ctx(json!({"depth": st.max_depth, "expected": d})));
    }
    // conflicts
    let Some(cs) = m.guard("graph calls never crash", || json!(log), || g.detect_conflicts()) else { return };
    let mut got: Vec<String> = cs.iter().map(|c| c.package_name.clone()).collect();
    got.sort();
    let want: Vec<String> = md.reqs.iter().filter(|(_, v)| (0..v.len()).any(|i| (0..i).any(|j| apart(&v[i], &v[j])))).map(|(k, _)| k.clone()).collect();
    m.count("conflicts", want.len() as u64);
    m.check("a conflict is reported exactly for packages required in two ways that share no version", got == want && st.conflict_count == want.len(), || ctx(json!({"requirements": md.reqs, "reported": got, "expected": want})));
    for c in &cs {
        let q: Vec<String> = c.conflicting_requirements.iter().map(|q| q.version_spec.clone().unwrap_or_default()).collect();
        m.check("a conflict names the requirements on its package", Some(&q) == md.reqs.get(&c.package_name), || ctx(json!({"requirements": md.reqs, "named": q})));
        let mut s = c.source_packages.clone();
        s.sort();
        let want: Vec<String> = md
            .nodes
            .iter()
            .filter(|(_, d)| d.split_once('|').unwrap().1.split(' ').any(|q| q.split(|ch: char| !ch.is_ascii_alphabetic()).next() == Some(&c.package_name)))
            .map(|(k, _)| k.clone())
            .collect();
        m.check("a conflict names the packages that require its package", s == want, || ctx(json!({"package": c.package_name, "named": s, "expected": want})));
        // resolutions
        let vs: Vec<Version> = c.conflicting_requirements.iter().filter_map(|q| Version::parse(q.version_spec.as_deref()?).ok()).collect();
        for (strategy, want) in [(ConflictStrategy::LatestWins, vs.iter().max()), (ConflictStrategy::EarliestWins, vs.iter().min())] {
            let name = format!("{strategy:?}");
            let Some(out) = m.guard("resolving a conflict never crashes", || json!(q), || {
                futures_block(ConflictResolver::new(strategy).resolve_conflicts(vec![c.clone()]))
            }) else { continue };
            if q.iter().all(|t| t.chars().all(|ch| ch.is_ascii_alphanumeric() || ch == '.') && !t.contains("..")) {
                let got = out.as_ref().ok().and_then(|v| v.first()).and_then(|x| x.selected_version.clone());
                m.check("a conflict between versions is settled as its strategy says", got.as_ref() == want && out.as_ref().is_ok_and(|v| v.len() == 1 && v[0].package_name == c.package_name), || json!({"strategy": name, "versions": q, "got": got.map(|v| v.to_string())}));
            }
        }
        m.check("a conflict that must not be is an error", futures_block(ConflictResolver::new(ConflictStrategy::FailOnConflict).resolve_conflicts(vec![c.clone()])).is_err(), || json!(q));
    }
    // the same graph built again answers the same
    let Some(first) = m.guard("graph calls never crash", || json!(log), || graph_state(&g)) else { return };
    for _ in 0..2 {
        let mut h = DependencyGraph::new();
        let mut keys: Vec<&String> = md.nodes.keys().collect();
        r.shuffle(&mut keys);
        let ps: BTreeMap<String, Package> = match g.get_resolved_packages() {
            Ok(v) => v.into_iter().map(|p| (key(&p.name, p.version.as_ref().map(|v| v.as_str())), p)).collect(),
            Err(_) => break,
        };
        for k in keys {
            if let Some(p) = ps.get(k) {
                let _ = h.add_package(p.clone());
            }
        }
        let mut es: Vec<_> = md.edges.iter().collect();
        r.shuffle(&mut es);
        for (a, b) in es {
            let _ = h.add_dependency_edge(a, b);
        }
        for (n, v) in &md.reqs {
            for t in v {
                let _ = h.add_requirement(if t.is_empty() { PackageRequirement::new(n.clone()) } else { PackageRequirement::with_version(n.clone(), t.clone()) });
            }
        }
        for e in &md.excl {
            let _ = h.add_exclusion(e.clone());
        }
        for _ in 0..md.cons {
            let _ = h.add_constraint(PackageRequirement::parse("maya-1").unwrap());
        }
        let again = graph_state(&h);
        m.check("the same packages and edges give the same answers", again == first, || json!({"history": log, "first": first, "again": again}));
    }
}
fn futures_block<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}
pub fn h01(m: &mut Mon) {
    m.describe(
        "generated histories of additions, re-additions, edges (also to packages that are not there), removals, exclusions, requirements and clears drive the real graph beside a plain set of nodes and edges; order, reachability, cycles, depth, statistics, conflicts and their settlement are compared with what the set says, and the same graph is built again in another order",
        &["whether two ranges share a version is judged by V02", "only requirements without the conflict or weak mark are given", "the depth of a graph with a cycle is not judged"],
        20000,
    );
    let n = m.size(900, 30);
    let mut r = m.rng(1);
    for i in 0..n {
        if m.out_of_time() || m.full() {
            break;
        }
        crumb(format!("graph history {i}"));
        one_graph(m, &mut r);
    }
    // long chains
    for len in [200usize, 1500] {
        let mut g = DependencyGraph::new();
        for i in 0..len {
            let mut p = Package::new(format!("p{i:05}"));
            p.version = Version::parse("1").ok();
            let _ = g.add_package(p);
        }
        for i in 1..len {
            let _ = g.add_dependency_edge(&format!("p{i:05}-1"), &format!("p{:05}-1", i - 1));
        }
        crumb(format!("chain of {len}"));
        let Some((d, n, c)) = m.guard("graph calls never crash", || json!(len), || (g.get_stats().max_depth, g.get_resolved_packages().map(|v| v.len()).unwrap_or(0), g.find_cycle().is_some())) else { continue };
        m.check("the depth is the longest chain", d == len && n == len && !c, || json!({"chain": len, "depth": d, "listed": n, "cycle": c}));
    }
}

// ---------------------------------------------------------------- W01
/// child:util JSON: lookups that depend on the process environment
pub fn child_util(args: &[String]) -> i32 {
    let a: Value = serde_json::from_str(&args[0]).unwrap();
    let text = |v: &Value| v.as_str().unwrap().to_string();
    let rows = |k: &str| -> Vec<String> { a[k].as_array().map(|x| x.iter().map(text).collect()).unwrap_or_default() };
    let which: Vec<Value> = rows("which").iter().map(|c| json!({"one": rez_next_util::which(c), "all": rez_next_util::which_all(c), "exists": rez_next_util::command_exists(c), "path": rez_next_util::get_command_path(c)})).collect();
    let expand: Vec<Value> = rows("expand").iter().map(|c| rez_next_util::expand_user_path(c).map_or_else(|e| json!({"error": e.to_string()}), |p| json!(p))).collect();
    println!("{}", json!({"which": which, "expand": expand}));
    0
}

/// the n-th name (1 is a, 26 is z, 27 is aa)
fn name26(mut n: u64) -> String {
    let mut s = vec![];
    while n > 0 {
        n -= 1;
        s.push(b'a' + (n % 26) as u8);
        n /= 26;
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(12) {
        s.push_str(r.pick(&["a", "Z", "_", "-", " ", "7", "é", "日本", "😀", "\n", ".", "maya", "İ", "\u{301}", "\t", "ß", "x", "½", "²", "٣"]));
    }
    s
}
/// year, month, day of a day number, counted the slow way
fn civil(mut days: u64) -> (u64, u64, u64) {
    let leap = |y: u64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut y = 1970;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if days < n {
            break;
        }
        days -= n;
        y += 1;
    }
    for (m, n) in [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31].into_iter().enumerate() {
        if days < n {
            return (y, m as u64 + 1, days + 1);
        }
        days -= n;
    }
    unreachable!()
}

fn texts(m: &mut Mon) {
    use rez_next_util as u;
    let mut r = m.rng(1);
    for _ in 0..m.size(6000, 20) {
        let s = text(&mut r);
        let max = r.below(24);
        let t = u::truncate(&s, max);
        m.seen(&(&s, max));
        let ok = if max <= 3 {
            t == "..."
        } else if s.len() <= max - 3 {
            t == s
        } else {
            // as much of the text as fits
            t.strip_suffix("...").is_some_and(|p| s.starts_with(p) && t.len() <= max && s[p.len()..].chars().next().is_none_or(|c| p.len() + c.len_utf8() > max - 3))
        };
        m.check("a shortened text is as much of the text as fits, and is marked", ok, || json!({"text": s, "max": max, "got": t}));
        let n = u::normalize_name(&s);
        let want: String = s.to_lowercase().chars().map(|c| if c == ' ' || c == '-' { '_' } else { c }).collect();
        m.check("a normalized name is lower case with underscores, once and for all", n == want && u::normalize_name(&n) == n, || json!({"text": s, "got": n}));
        let ident = |s: &str| s.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_') && s.chars().all(|c| c.is_alphanumeric() || c == '_');
        m.check("an identifier is recognized", u::is_valid_identifier(&s) == ident(&s), || json!({"text": s, "got": u::is_valid_identifier(&s)}));
        let p = u::to_python_identifier(&s);
        let tail: String = s.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        m.check("every text becomes an identifier that keeps its letters and digits", ident(&p) && (p == tail || p == format!("_{tail}")) && (p == tail || !tail.chars().next().is_some_and(char::is_alphabetic)), || json!({"text": s, "got": p}));
        let k = r.below(5);
        let i = u::indent(&s, k);
        let want = s.lines().map(|l| " ".repeat(k) + l).collect::<Vec<_>>().join("\n");
        m.check("every line is indented", i == want, || json!({"text": s, "got": i}));
        let items: Vec<String> = (0..if r.chance(1, 4) { r.below(30) } else { r.below(5) }).map(|i| format!("i{i}")).collect();
        let l = u::format_list(&items, "or");
        let want = match items.len() {
            0 => String::new(),
            1 => items[0].clone(),
            2 => format!("{} or {}", items[0], items[1]),
            n => format!("{}, or {}", items[..n - 1].join(", "), items[n - 1]),
        };
        m.check("a list names every item in order", l == want, || json!({"items": items, "got": l}));
        // durations
        let num = *r.pick(&[0u64, 1, 7, 59, 60, 3600, 100_000, u64::MAX / 86400, u64::MAX / 3600, u64::MAX / 60, u64::MAX / 86400 + 1, u64::MAX / 3600 + 1, u64::MAX / 60 + 1, u64::MAX]);
        let unit = *r.pick(&["", "s", "m", "h", "d", "S", "M", "H", "D", " h", " m", "w", "ms", "x"]);
        let sp = format!("{}{}{num}{unit}{}", r.pick(&["", "", " ", "\t"]), r.pick(&["", "", "", "", "-", "1.", "x"]), r.pick(&["", "", " ", "\n"]));
        let body = sp.trim().to_lowercase();
        let (digits, factor) = match body.chars().last() {
            Some('s') => (body[..body.len() - 1].trim(), 1),
            Some('m') => (body[..body.len() - 1].trim(), 60),
            Some('h') => (body[..body.len() - 1].trim(), 3600),
            Some('d') => (body[..body.len() - 1].trim(), 86400),
            _ => (body.as_str(), 1),
        };
        let want = digits.parse::<u64>().ok().and_then(|n| n.checked_mul(factor));
        let got = m.guard("a duration is read or refused", || json!(sp), || u::parse_duration(&sp));
        if let Some(got) = got {
            m.check("a duration is the number times its unit, or is refused", got.as_ref().ok().map(|d| (d.as_secs(), d.subsec_nanos())) == want.map(|w| (w, 0)), || json!({"text": sp, "want": want, "got": format!("{got:?}")}));
        }
        let ts = match r.below(4) {
            0 => r.below(100_000_000) as u64 * 20,
            1 => r.below(3_000_000) as u64 * 86400 + *r.pick(&[0u64, 86399, 43200]),
            2 => *r.pick(&[0u64, 951_782_400, 951_868_799, 4_107_542_400, 253_402_300_799, 68_169_600]),
            _ => r.below(2_000_000_000) as u64,
        }
        .min(253_402_300_799);
        // how long ago, as long as the clock stands still
        let ago = match r.below(3) {
            0 => *r.pick(&[0u64, 60, 3600, 86400, 604800, 2592000, 31536000, 63072000]) + r.below(3) as u64,
            1 => r.pick(&[60u64, 3600, 86400, 604800, 2592000, 31536000]) - 1 - r.below(2) as u64,
            _ => (r.next() >> 30) % [100, 10_000, 1_000_000, 100_000_000, 1_000_000_000][r.below(5)],
        };
        let now = u::current_timestamp();
        let got = (u::human_time_diff(now - ago), u::human_time_diff(now + 5));
        if u::current_timestamp() == now {
            let (unit, len) = [("years", 31536000), ("months", 2592000), ("weeks", 604800), ("days", 86400), ("hours", 3600), ("minutes", 60), ("seconds", 1)].into_iter().find(|x| ago >= x.1 || x.1 == 1).unwrap();
            m.check("a time ago is counted in its largest unit", got == (format!("{} {unit} ago", ago / len), "in the future".to_string()), || json!({"seconds": ago, "got": got}));
        }
        let (y, mo, d) = civil(ts / 86400);
        let want = format!("{y:04}-{mo:02}-{d:02}T{:02}:{:02}:{:02}+00:00", ts % 86400 / 3600, ts % 3600 / 60, ts % 60);
        let got = u::format_timestamp_iso(ts);
        m.check("a time is written as the UTC date and time it is", got == want, || json!({"timestamp": ts, "want": want, "got": got}));
    }
    // names in sequence
    let mut prev: Option<String> = None;
    for n in 1..m.size(20000, 10) as u64 {
        let got = u::get_next_base26(prev.as_deref()).unwrap_or_default();
        if !m.check("the next name is the next of a, b, ..., z, aa, ab, ...", got == name26(n), || json!({"after": prev, "want": name26(n), "got": got})) {
            break;
        }
        prev = Some(got);
    }
    for _ in 0..m.size(2000, 10) {
        let n = match r.below(3) {
            0 => 26u64.pow(r.range(1, 9) as u32) + r.below(40) as u64,
            1 => (26u64.pow(r.range(2, 9) as u32) - 1) / 25 - 1,
            _ => (r.next() >> r.range(20, 50)) + 1,
        }
        .max(1);
        let got = u::get_next_base26(Some(&name26(n))).unwrap_or_default();
        m.check("the next name is the next of a, b, ..., z, aa, ab, ...", got == name26(n + 1), || json!({"after": name26(n), "got": got}));
        let bad = format!("{}{}{}", name26(n), r.pick(&["A", "1", " ", "é", "-", "_", "{", "`"]), r.pick(&["", "a"]));
        m.check("a name that is not one has no successor", u::get_next_base26(Some(&bad)).is_err(), || json!(bad));
    }
}

/// short links: whatever is there, a link is new, its own and lasting
fn links(mut r: Rng, i: usize) -> Rec {
    use rez_next_util::{Base26Error, create_unique_base26_symlink as link};
    let mut rec = Rec::default();
    let d = fresh("links");
    let dir = d.join(*r.pick(&["l", "deep/er/l", "a b"]));
    let base = |p: &Path| p.file_name().unwrap().to_string_lossy().into_owned();
    // something there already
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 6) {
            let n = match r.below(3) {
                0 => name26(r.range(1, 60) as u64),
                1 => name26(r.range(600, 760) as u64),
                _ => r.pick(&["A", "_keep", "a1", "é", "x.y"]).to_string(),
            };
            let p = dir.join(n);
            if std::fs::symlink_metadata(&p).is_ok() {
                continue;
            }
            std::fs::create_dir_all(&dir).unwrap();
            match r.below(3) {
                0 => write(&p, "file"),
                1 => std::fs::create_dir_all(&p).unwrap(),
                _ => std::os::unix::fs::symlink("/nowhere/at/all", &p).unwrap(),
            }
        }
    }
    std::fs::create_dir_all(d.join("real/in")).unwrap();
    std::os::unix::fs::symlink("real", d.join("alias")).unwrap();
    let mut known: BTreeMap<String, PathBuf> = BTreeMap::new();
    let many = if i % 12 == 0 { 760 } else { r.range(1, 90) };
    let mut at = if many > 700 { BTreeMap::new() } else { crate::files::tree(&d) };
    for k in 0..many {
        let again = !known.is_empty() && r.chance(1, 6);
        let src = if again { known.keys().nth(r.below(known.len())).unwrap().clone() } else { match r.below(6) {
            // the same name elsewhere, and the same place under another name
            0 => format!("{}/other/src{}", d.display(), r.below(k + 1)),
            1 => format!("{}/other/deep/src{}", d.display(), r.below(k + 1)),
            2 => format!("{}/{}", d.display(), r.pick(&["real", "alias", "real/in", "alias/in"])),
            3 => format!("src{}", r.below(k + 1)),
            _ => format!("{}/{}{k}", d.display(), r.pick(&["src", "s p", "é"])),
        } };
        let again = known.contains_key(&src);
        let got = link(&dir, &src);
        let what = |x: Value| json!({"step": k, "source": src, "seen before": again, "got": format!("{got:?}"), "detail": x});
        rec.check("a link is made", got.is_ok(), || what(json!(null)));
        if got.is_err() {
            break;
        }
        let p = got.as_ref().unwrap();
        let name = base(p);
        rec.check("a link leads to its source", p.parent() == Some(&dir) && std::fs::read_link(p).ok() == Some(PathBuf::from(&src)), || what(json!(null)));
        if again {
            rec.count("links asked for again");
            rec.check("a source that has a link keeps it", known.get(&src) == Some(p), || what(json!(known.get(&src))));
        } else {
            rec.count("links made");
            rec.check("a new link has a short name of its own", name.bytes().all(|b| b.is_ascii_lowercase()) && !name.is_empty() && !known.values().any(|q| q == p), || what(json!(null)));
        }
        known.insert(src.clone(), p.clone());
        if many <= 700 {
            let now = crate::files::tree(&d);
            let rel = p.strip_prefix(&d).unwrap().to_string_lossy().into_owned();
            let stray: Vec<&String> = at.keys().chain(now.keys()).filter(|x| at.get(*x) != now.get(*x) && **x != rel && !rel.starts_with(&format!("{x}/"))).collect();
            rec.check("making a link changes nothing else", stray.is_empty() && (at.get(&rel).is_none() || at.get(&rel) == now.get(&rel)), || what(json!(stray)));
            at = now;
        }
    }
    // many at once
    let dir = d.join("busy");
    let n = r.range(2, 6);
    let each = r.range(3, 12);
    let bar = std::sync::Barrier::new(n);
    let all: Vec<(String, Result<PathBuf, Base26Error>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (dir, bar, d) = (&dir, &bar, &d);
                s.spawn(move || {
                    bar.wait();
                    (0..each).map(|k| (format!("{}/t{t}-{k}", d.display()), link(dir, format!("{}/t{t}-{k}", d.display())))).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    });
    rec.check("every caller gets an answer", all.len() == n * each, || json!({"answers": all.len()}));
    let mut names = BTreeSet::new();
    for (s, got) in &all {
        rec.count(if got.is_ok() { "links made at the same time" } else { "links given up at the same time" });
        match got {
            Ok(p) => {
                rec.check("links made at the same time are distinct and lead to their own sources", names.insert(base(p)) && std::fs::read_link(p).ok() == Some(PathBuf::from(s)), || json!({"source": s, "link": p, "leads to": std::fs::read_link(p).ok()}));
            }
            Err(e) => {
                rec.check("only lost races give a link up", matches!(e, Base26Error::RetryExhausted(_)), || json!(e.to_string()));
            }
        }
    }
    let left = std::fs::read_dir(&dir).map(|x| x.count()).unwrap_or(0);
    rec.check("no link but those given out is there", left == names.len(), || json!({"there": left, "given out": names.len()}));
    rec.seen.push(format!("links {i} {many} {n}x{each}"));
    rm(&d);
    rec
}

fn disk(mut r: Rng, i: usize) -> Rec {
    use rez_next_util as u;
    use std::os::unix::fs::{PermissionsExt, symlink};
    let mut rec = Rec::default();
    let d = fresh("utilfs");
    let names = ["a", "b", "a/c", "a/c/d", "b/e f", ".write_test_tmp", "a/.write_test_tmp", "é", "new/deep/x", "b/l", "ro/x"];
    std::fs::create_dir_all(d.join("a/c")).unwrap();
    std::fs::create_dir_all(d.join("ro")).unwrap();
    for n in ["b/e f", ".write_test_tmp", "a/.write_test_tmp", "a/c/d", "é"] {
        if r.chance(2, 3) {
            write(d.join(n), &format!("{n} {}", "x".repeat(if r.chance(1, 8) { r.range(60_000, 300_000) } else { r.below(20_000) })));
            std::fs::set_permissions(d.join(n), std::fs::Permissions::from_mode(*r.pick(&[0o644, 0o755, 0o600]))).unwrap();
        }
    }
    std::fs::create_dir_all(d.join("b")).unwrap();
    for (l, t) in [("b/l", "../a/c"), ("loop", "loop"), ("gone", "/nowhere/x"), ("tofile", "é"), ("up", ".")] {
        if r.chance(1, 2) {
            symlink(t, d.join(l)).unwrap();
        }
    }
    std::fs::set_permissions(d.join("ro"), std::fs::Permissions::from_mode(0o555)).unwrap();
    let root = std::fs::write(d.join("ro/probe"), "").is_ok();
    if root {
        let _ = std::fs::remove_file(d.join("ro/probe"));
    }
    for step in 0..r.range(3, 10) {
        let n = if r.chance(1, 4) { *r.pick(&["loop", "gone", "tofile", "ro", "b/l"]) } else { *r.pick(&names) };
        let p = d.join(n);
        let before = crate::files::tree(&d);
        let op = *r.pick(&["dir", "parent", "writable", "remove", "copy", "copy"]);
        let n2 = if r.chance(1, 4) { *r.pick(&["tofile", "up/é", "a/../é", "gone"]) } else { *r.pick(&names) };
        let q = d.join(n2);
        let was = (p.exists(), p.is_dir(), std::fs::symlink_metadata(&p).is_ok());
        let bytes = std::fs::read(&p).ok();
        let dangling = std::fs::symlink_metadata(&q).is_ok();
        let other = std::fs::metadata(&q).ok().map(|m| m.is_dir());
        let got = match op {
            "dir" => u::ensure_dir_exists(&p).is_ok(),
            "parent" => u::ensure_parent_dir_exists(&p).is_ok(),
            "writable" => u::is_writable(&p),
            "remove" => u::safe_remove(&p).is_ok(),
            _ => u::copy_file(&p, &q).is_ok(),
        };
        let after = crate::files::tree(&d);
        let changed: Vec<&String> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k)).collect();
        let what = |x: Value| json!({"step": step, "call": op, "path": n, "to": n2, "was": format!("{was:?}"), "got": got, "changed": changed, "detail": x});
        rec.count(format!("{op}: {}", if got { "done" } else { "refused" }));
        rec.seen.push(format!("{i}.{step} {op} {n} {n2} {was:?} {got}"));
        let made_only = changed.iter().all(|k| !before.contains_key(*k) && after[*k].starts_with("dir "));
        match op {
            "dir" => {
                rec.check("a directory that is made sure of is there, and nothing else changes", got == p.is_dir() && made_only && (!was.1 || got) && (got || was.2 || n.starts_with("ro") || p.ancestors().any(|x| x.is_file())), || what(json!(null)));
            }
            "parent" => {
                rec.check("a parent directory that is made sure of is there, and nothing else changes", got == p.parent().unwrap().is_dir() && made_only && !changed.iter().any(|k| **k == n), || what(json!(null)));
            }
            "writable" => {
                rec.check("asking whether a path is writable changes nothing", changed.is_empty(), || what(json!(null)));
                if !root && was.1 && n != "b/l" {
                    rec.check("a directory is writable exactly if it can be written to", got == std::fs::metadata(&p).is_ok_and(|m| m.permissions().mode() & 0o200 != 0), || what(json!(null)));
                }
            }
            "remove" => {
                let gone = std::fs::symlink_metadata(&p).is_err();
                rec.check("what is removed is gone, and nothing but it", (!got || gone) && changed.iter().all(|k| **k == n || k.starts_with(&format!("{n}/"))) && (got || n.starts_with("ro")), || what(json!({"gone": gone})));
            }
            _ => {
                if got {
                    rec.check("a copy is the file, and the file is still there", bytes.is_some() && std::fs::read(&q).ok() == bytes && std::fs::read(&p).ok() == bytes, || what(json!({"bytes": bytes.as_ref().map(Vec::len), "copy": std::fs::read(&q).ok().map(|x| x.len())})));
                } else {
                    rec.check("a file that can be copied is", bytes.is_none() || other == Some(true) || n2.starts_with("ro") || (dangling && other.is_none()) || q.parent().is_none_or(|x| !x.is_dir()), || what(json!(null)));
                    rec.check("a copy that is refused leaves the file alone", std::fs::read(&p).ok() == bytes, || what(json!(null)));
                }
            }
        }
    }
    let _ = std::fs::set_permissions(d.join("ro"), std::fs::Permissions::from_mode(0o755));
    rm(&d);
    rec
}

fn lookups(mut r: Rng, i: usize) -> Rec {
    use std::os::unix::fs::{PermissionsExt, symlink};
    let mut rec = Rec::default();
    let d = fresh("which");
    let dirs = ["one", "t wo", "thr:ee", "é", "missing", "rel", "sub/dir"];
    let cmds = ["tool", "my-tool", "t ool", "é日", "tool.exe", ".hidden", "x"];
    for g in dirs {
        if g == "missing" {
            continue;
        }
        std::fs::create_dir_all(d.join(g)).unwrap();
        for c in cmds {
            let p = d.join(g).join(c);
            match r.below(9) {
                0 | 1 => {
                    write(&p, "#!/bin/sh\n");
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(*r.pick(&[0o755, 0o700, 0o711, 0o100, 0o010, 0o001, 0o555]))).unwrap();
                }
                2 => write(&p, "not executable"),
                3 => std::fs::create_dir_all(&p).unwrap(),
                4 => symlink(r.pick(&["/bin/sh", "/nowhere", "/etc/hostname", "/usr", "../one/x"]), &p).unwrap(),
                _ => {}
            }
        }
    }
    let mut entries: Vec<String> = vec![];
    for _ in 0..r.range(0, 6) {
        entries.push(match r.below(6) {
            0 => String::new(),
            1 => r.pick(&["rel", "./rel", "sub/dir"]).to_string(),
            2 => format!("{}/", d.join("one").display()),
            _ => d.join(dirs[r.below(dirs.len())]).to_string_lossy().into_owned(),
        });
    }
    let path = entries.join(":");
    let mut asked: Vec<String> = cmds.iter().map(|x| x.to_string()).collect();
    asked.extend(["absent".into(), "rel/tool".into(), "./rel/x".into(), d.join("one/tool").to_string_lossy().into_owned(), "../one".into(), "nothere/tool".into()]);
    let home = d.join("my home");
    let paths = ["~", "~/x", "~/", "~/a/~/b", "~x", "~x/y", "a/~", "/abs/~/x", "", "x", "~//y", "./~/z", "~/../up", "~/a/../../b", "~/./c", "~/.hidden"];
    let me = std::env::current_exe().unwrap();
    let no_path = r.chance(1, 10);
    let mut c = std::process::Command::new(me);
    c.arg("child:util").arg(json!({"which": asked, "expand": paths}).to_string()).env_clear().env("HOME", &home).current_dir(&d);
    if !no_path {
        c.env("PATH", &path);
    }
    let o = c.output().unwrap();
    let got: Value = serde_json::from_slice(&o.stdout).unwrap_or(Value::Null);
    rec.seen.push(format!("which {i} {path}"));
    let runs = |p: &Path| std::fs::metadata(if p.is_absolute() { p.to_path_buf() } else { d.join(p) }).is_ok_and(|m| m.is_file() && m.permissions().mode() & 0o111 != 0);
    for (k, c) in asked.iter().enumerate() {
        let g = &got["which"][k];
        let what = |w: Value| json!({"PATH": path, "no PATH": no_path, "command": c, "want": w, "got": g});
        if c.contains('/') {
            if no_path {
                continue;
            }
            let p = if c.starts_with('/') { PathBuf::from(c) } else { d.join(c) };
            let want = runs(&p);
            let got_p = g["one"].as_str().map(PathBuf::from);
            rec.check("a command given as a path is that file if it can be run", got_p.is_some() == want && got_p.is_none_or(|x| x.canonicalize().ok() == p.canonicalize().ok()), || what(json!(want)));
        } else {
            let want: Vec<PathBuf> = if no_path { vec![] } else { path.split(':').filter(|x| !x.is_empty()).map(|x| Path::new(x).join(c)).filter(|p| runs(p)).collect() };
            rec.count(if want.is_empty() { "commands not there" } else { "commands found" });
            rec.check("every place of a command is listed in the order of PATH", g["all"] == json!(want), || what(json!(want)));
            rec.check("a command is the first that can be run", g["one"] == json!(want.first()) && g["path"] == g["one"] && g["exists"] == json!(!want.is_empty()), || what(json!(want.first())));
        }
    }
    for (k, p) in paths.iter().enumerate() {
        let want = match p.strip_prefix('~') {
            Some("") => home.clone(),
            Some(rest) if rest.starts_with('/') => home.join(rest.trim_start_matches('/')),
            _ => PathBuf::from(p),
        };
        let g = got["expand"][k].as_str().map(PathBuf::from);
        rec.check("a leading ~ is the home directory, and nothing else is", g.as_ref().map(|x| x.components().collect::<Vec<_>>()) == Some(want.components().collect()), || json!({"path": p, "want": want, "got": got["expand"][k]}));
    }
    // commands that are run
    let args: Vec<String> = (0..r.below(4)).map(|_| r.pick(&["", "a b", "$HOME", "'", "é", "-n", "*", "\\", "two\nlines"]).to_string()).collect();
    let code = *r.pick(&[0, 0, 1, 3, 255]);
    let kill = r.chance(1, 8);
    let tail = *r.pick(&["", "", "\n", "\n\n", "  ", "\t\n", "\r\n"]);
    let script = format!("for a in \"$@\"; do printf '<%s>' \"$a\"; done; printf '%s' '{tail}'; printf 'err%s' $# >&2; {}", if kill { "kill -9 $$".to_string() } else { format!("exit {code}") });
    let mut argv: Vec<&str> = vec!["-c", &script, "sh"];
    argv.extend(args.iter().map(String::as_str));
    let out: String = args.iter().map(|a| format!("<{a}>")).collect::<String>() + tail;
    let x = rez_next_util::execute_command("/bin/sh", &argv);
    rec.check("a command's output and status are its own", x.as_ref().is_ok_and(|x| x.stdout == out && x.stderr == format!("err{}", args.len()) && x.success == (code == 0 && !kill) && if kill { x.exit_code != 0 } else { x.exit_code == code }), || json!({"args": args, "code": code, "killed": kill, "got": format!("{x:?}")}));
    let y = rez_next_util::get_command_output("/bin/sh", &argv);
    rec.check("the output of a command that fails is not an answer", y.as_ref().ok() == if code == 0 && !kill { Some(&out) } else { None }, || json!({"code": code, "killed": kill, "got": format!("{y:?}")}));
    rec.check("a command that does not exist is an error", rez_next_util::execute_command(&d.join("absent").to_string_lossy(), &[]).is_err(), || json!(null));
    rm(&d);
    rec
}

pub fn w01(m: &mut Mon) {
    m.describe(
        "the shared helpers are called on generated texts, trees, search paths and directories of short links, in sequence and by several threads at once; every answer is compared with an independent reading, and the scratch tree with what the call may change",
        &["a race for a short link may be given up after ten lost attempts", "times up to the year 9999", "execute_command_with_timeout, a stub, is not judged"],
        5000,
    );
    texts(m);
    let n = m.size(120, 10);
    parallel(m, n, 8, links);
    let n = m.size(1200, 12);
    parallel(m, n, 8, disk);
    let n = m.size(500, 12);
    parallel(m, n, 8, lookups);
}
