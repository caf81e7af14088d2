//! S01 soundness, S02 determinism, S03 termination, S04 preference of resolves.
use crate::mon::{Mon, Rng, crumb};
use crate::reqs::{C, MReq, gen_constraint};
use crate::util;
use crate::vers::{mcmp, model};
use rez_next_common::RezCoreError;
use rez_next_package::{Package, PackageRequirement, Requirement};
use rez_next_repository::simple_repository::{PackageRepository, RepositoryManager, SimpleRepository};
use rez_next_solver::{DependencyResolver, DependencySolver, DetailedResolutionResult, SolverConfig, SolverRequest};
use rez_next_version::Version;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering as AO};

#[derive(Clone, Debug)]
pub struct MPkg {
    pub name: String,
    pub version: String,
    pub requires: Vec<MReq>,
    pub variants: Vec<Vec<MReq>>,
}
impl MPkg {
    fn real(&self) -> Package {
        let mut p = Package::new(self.name.clone());
        p.version = if self.version.is_empty() { None } else { Some(Version::parse(&self.version).unwrap()) };
        p.requires = self.requires.iter().map(|r| r.text.clone()).collect();
        p.variants = self.variants.iter().map(|v| v.iter().map(|r| r.text.clone()).collect()).collect();
        p
    }
    pub fn package_py(&self) -> String {
        let q = |r: &MReq| format!("'{}'", r.text);
        let mut s = format!("name = '{}'\n", self.name);
        if !self.version.is_empty() {
            s += &format!("version = '{}'\n", self.version);
        }
        s += &format!("requires = [{}]\n", self.requires.iter().map(q).collect::<Vec<_>>().join(", "));
        if !self.variants.is_empty() {
            s += &format!("variants = [{}]\n", self.variants.iter().map(|v| format!("[{}]", v.iter().map(q).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "));
        }
        s
    }
    fn json(&self) -> Value {
        json!({"name": self.name, "version": self.version, "requires": self.requires.iter().map(|r| &r.text).collect::<Vec<_>>(),
            "variants": self.variants.iter().map(|v| v.iter().map(|r| &r.text).collect::<Vec<_>>()).collect::<Vec<_>>()})
    }
}
pub type Universe = Vec<MPkg>;

static CALLS: AtomicU64 = AtomicU64::new(0);

/// A repository that hands out packages in an arbitrary listing order, after an arbitrary delay.
struct MemRepo {
    pkgs: HashMap<String, Vec<Arc<Package>>>,
    yields: usize,
    root: PathBuf,
}
impl MemRepo {
    fn new(u: &Universe, r: &mut Rng) -> Self {
        let mut pkgs: HashMap<String, Vec<Arc<Package>>> = HashMap::new();
        let mut order: Vec<&MPkg> = u.iter().collect();
        r.shuffle(&mut order);
        for p in order {
            pkgs.entry(p.name.clone()).or_default().push(Arc::new(p.real()));
        }
        MemRepo { pkgs, yields: r.below(3), root: PathBuf::from("/nonexistent-repo") }
    }
}
#[async_trait::async_trait]
impl PackageRepository for MemRepo {
    async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
        CALLS.fetch_add(1, AO::Relaxed);
        for _ in 0..self.yields {
            tokio::task::yield_now().await;
        }
        Ok(self.pkgs.get(name).cloned().unwrap_or_default())
    }
    async fn get_package(&self, name: &str, version: Option<&str>) -> Result<Option<Arc<Package>>, RezCoreError> {
        Ok(self.pkgs.get(name).and_then(|v| v.iter().find(|p| p.version.as_ref().map(|x| x.as_str()) == version)).cloned())
    }
    async fn list_packages(&self) -> Result<Vec<String>, RezCoreError> {
        Ok(self.pkgs.keys().cloned().collect())
    }
    fn name(&self) -> &str {
        "mem"
    }
    fn root_path(&self) -> &Path {
        &self.root
    }
}
fn manager(u: &Universe, r: &mut Rng) -> Arc<RepositoryManager> {
    let mut m = RepositoryManager::new();
    m.add_repository(Box::new(MemRepo::new(u, r)));
    Arc::new(m)
}

// ------------------------------------------------------------ generators
const VERS: &[&str] = &["1.0", "1.1", "1.2.3", "2.0", "2.1", "3.0", "10.0", "1.0.rc1", "2.0.beta", "0.9", "3"];
struct Shape {
    fams: usize,
    conflicts: usize, // percent
    weak: usize,
    variants: usize,
    cyclic: usize,
    tight: usize,
}
fn req(r: &mut Rng, name: &str, sh: &Shape, u_vers: &[String]) -> MReq {
    // mostly constraints that name versions which exist
    let (cs, t) = if !u_vers.is_empty() && r.below(100) < sh.tight {
        let v = r.pick(u_vers).clone();
        match r.below(7) {
            0 => (vec![C::Op("==", v.clone())], format!("=={v}")),
            1 => (vec![C::Op(">=", v.clone())], format!(">={v}")),
            2 => (vec![C::Op("<=", v.clone())], format!("<={v}")),
            3 => (vec![C::Op("<", v.clone())], format!("<{v}")),
            4 => (vec![C::Prefix(v.clone())], format!("-{v}")),
            5 => (vec![C::Op("!=", v.clone())], format!("!={v}")),
            _ => (vec![C::Op(">=", v.clone())], format!("-{v}+")),
        }
    } else if r.chance(2, 3) {
        (vec![], String::new())
    } else {
        loop {
            let (cs, t) = gen_constraint(r, false);
            // keep to constraints whose meaning is fully specified
            if !cs.iter().any(|c| matches!(c, C::Wild(_) | C::Op("~=", _))) {
                break (cs, t);
            }
        }
    };
    let x = r.below(100);
    let conflict = x < sh.conflicts;
    let weak = !conflict && x < sh.conflicts + sh.weak;
    let flag = if conflict { "!" } else if weak { "~" } else { "" };
    MReq { name: name.into(), weak, conflict, cs, text: format!("{flag}{name}{t}") }
}
fn universe(r: &mut Rng, sh: &Shape) -> Universe {
    let names: Vec<String> = (0..sh.fams).map(|i| format!("p{i}")).collect();
    let mut vers: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for n in &names {
        let k = if sh.fams > 2 && r.chance(1, 12) { 0 } else { r.range(1, 4) };
        let mut vs = vec![];
        if k == 0 {
            vs.push(String::new()); // the family's only package has no version
        }
        while vs.len() < k {
            let v = r.pick(VERS).to_string();
            if !vs.iter().any(|x: &String| mcmp(&model(x), &model(&v)).is_eq()) {
                vs.push(v);
            }
        }
        vers.insert(n.clone(), vs);
    }
    let mut u = vec![];
    for (i, n) in names.iter().enumerate() {
        for v in &vers[n] {
            let mut requires = vec![];
            let k = r.below(4);
            for _ in 0..k {
                let cyc = r.below(100) < sh.cyclic;
                let j = if cyc { r.below(sh.fams) } else if i + 1 >= sh.fams { i } else { r.range(i + 1, sh.fams - 1) };
                if j == i {
                    continue;
                }
                let dep = if r.chance(1, 25) { "missing".to_string() } else { names[j].clone() };
                let dv: Vec<String> = vers.get(&dep).cloned().unwrap_or_default().into_iter().filter(|v| !v.is_empty()).collect();
                let q = req(r, &dep, sh, &dv);
                if !requires.iter().any(|x: &MReq| x.name == q.name) {
                    requires.push(q);
                }
            }
            let mut variants = vec![];
            if r.below(100) < sh.variants && i + 1 < sh.fams {
                for _ in 0..r.range(1, 3) {
                    let mut vr = vec![];
                    for _ in 0..r.range(1, 2) {
                        let j = r.range(i + 1, sh.fams - 1);
                        let dv: Vec<String> = vers[&names[j]].iter().filter(|v| !v.is_empty()).cloned().collect();
                        let q = req(r, &names[j], sh, &dv);
                        vr.push(q);
                    }
                    variants.push(vr);
                }
            }
            u.push(MPkg { name: n.clone(), version: v.clone(), requires, variants });
        }
    }
    u
}
fn requests(r: &mut Rng, u: &Universe, sh: &Shape) -> Vec<MReq> {
    let mut out = vec![];
    for _ in 0..r.range(1, 4) {
        let n = r.pick(u).name.clone();
        let vs: Vec<String> = u.iter().filter(|p| p.name == n && !p.version.is_empty()).map(|p| p.version.clone()).collect();
        let mut q = req(r, &n, sh, &vs);
        if q.text.is_empty() {
            q = MReq { name: n.clone(), weak: false, conflict: false, cs: vec![], text: n };
        }
        out.push(q);
    }
    out
}
fn shape(r: &mut Rng) -> Shape {
    Shape {
        fams: r.range(2, 7),
        conflicts: *r.pick(&[0, 5, 15]),
        weak: *r.pick(&[0, 5, 15]),
        variants: *r.pick(&[0, 0, 30]),
        cyclic: *r.pick(&[0, 0, 0, 10, 40]),
        tight: *r.pick(&[20, 50, 80]),
    }
}
fn cfg(strict: bool, latest: bool, pre: bool) -> SolverConfig {
    SolverConfig { strict_mode: strict, prefer_latest: latest, allow_prerelease: pre, ..SolverConfig::default() }
}
fn parse_all(reqs: &[MReq]) -> Option<Vec<Requirement>> {
    reqs.iter().map(|q| q.text.parse::<Requirement>().ok()).collect()
}
fn describe(u: &Universe, reqs: &[MReq], c: &SolverConfig) -> Value {
    json!({"requests": reqs.iter().map(|q| &q.text).collect::<Vec<_>>(), "strict": c.strict_mode, "latest": c.prefer_latest, "prerelease": c.allow_prerelease,
        "packages": u.iter().map(|p| p.json()).collect::<Vec<_>>()})
}
type Outcome = Result<BTreeMap<String, (String, Option<usize>)>, String>;
fn outcome(res: &Result<DetailedResolutionResult, RezCoreError>) -> Outcome {
    match res {
        Ok(d) => Ok(d.resolved_packages.iter().map(|p| (p.package.name.clone(), (p.package.version.as_ref().map(|v| v.as_str().to_string()).unwrap_or_default(), p.variant_index))).collect()),
        Err(e) => Err(e.to_string()),
    }
}
fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
fn solve(rt: &tokio::runtime::Runtime, mgr: Arc<RepositoryManager>, reqs: Vec<Requirement>, c: &SolverConfig) -> Result<DetailedResolutionResult, RezCoreError> {
    rt.block_on(async { DependencyResolver::new(mgr, c.clone()).resolve(reqs).await })
}
fn is_pre(v: &str) -> bool {
    ["alpha", "beta", "rc", "dev", "pre", "snapshot"].iter().any(|p| v.to_lowercase().contains(p))
}
fn holds(q: &MReq, version: &str) -> bool {
    version.is_empty() || q.admits(version).unwrap_or(true)
}

/// The offline checker: is `sel` a consistent answer to `reqs` over `u`? Returns the broken clause.
fn judge(u: &Universe, reqs: &[MReq], sel: &BTreeMap<String, (String, Option<usize>)>, pre: bool, failed: &BTreeSet<String>, strict: bool) -> Result<(), (String, Value)> {
    let mut active: Vec<(String, &MReq)> = reqs.iter().map(|q| ("request".to_string(), q)).collect();
    for (n, (v, vi)) in sel {
        let Some(p) = u.iter().find(|p| p.name == *n && p.version == *v) else {
            return Err(("selected-package-exists".into(), json!({"package": n, "version": v})));
        };
        if !pre && is_pre(v) {
            return Err(("prerelease-only-when-allowed".into(), json!({"package": n, "version": v})));
        }
        let by = format!("{n}-{v}");
        active.extend(p.requires.iter().map(|q| (by.clone(), q)));
        match (p.variants.is_empty(), vi) {
            (true, None) => {}
            (false, Some(i)) if *i < p.variants.len() => active.extend(p.variants[*i].iter().map(|q| (by.clone(), q))),
            _ => return Err(("one-variant-of-a-package-with-variants".into(), json!({"package": by, "variant": vi}))),
        }
    }
    for (by, q) in &active {
        let hit = sel.get(&q.name).map(|(v, _)| holds(q, v));
        let ok = match (q.conflict, q.weak, hit) {
            (true, _, None) => true,
            // a conflict names what must be absent; an unversioned package is always named
            (true, _, Some(x)) => !x,
            (false, true, None) => true,
            (false, _, Some(x)) => x,
            (false, false, None) => false,
        };
        if !ok {
            if strict {
                let rule = if q.conflict { "no-excluded-package-selected" } else { "every-requirement-satisfied" };
                return Err((rule.into(), json!({"requirement": q.text, "of": by, "selected": sel.get(&q.name).map(|x| &x.0)})));
            }
            // what the request itself excludes is known from the start
            if q.conflict && by == "request" {
                return Err(("nothing-the-request-excludes-selected".into(), json!({"requirement": q.text, "selected": sel.get(&q.name).map(|x| &x.0)})));
            }
            if !q.conflict && !failed.contains(&q.text_norm()) {
                return Err(("unsatisfied-requirement-reported".into(), json!({"requirement": q.text, "of": by, "failed": failed})));
            }
        }
    }
    // a reported failure is one nothing available could have met, given the rest of the answer
    if !strict {
        for (by, q) in &active {
            if q.conflict || !failed.contains(&q.text_norm()) {
                continue;
            }
            if sel.get(&q.name).is_some_and(|(v, _)| holds(q, v) && !active.iter().any(|(_, c)| c.conflict && c.name == q.name && holds(c, v))) {
                return Err(("reported-failure-is-one".into(), json!({"requirement": q.text, "of": by, "selected": sel.get(&q.name).map(|x| &x.0)})));
            }
            let fit = u.iter().find(|p| {
                p.name == q.name && p.variants.is_empty() && (pre || !is_pre(&p.version)) && active.iter().filter(|(_, a)| a.name == q.name).all(|(_, a)| holds(a, &p.version) != a.conflict)
            });
            if let Some(p) = fit {
                return Err(("reported-failure-could-not-be-met".into(), json!({"requirement": q.text, "of": by, "fits": p.version, "selection": format!("{sel:?}")})));
            }
        }
    }
    // a selection never depends on itself
    let edges = |n: &str| -> Vec<String> {
        let Some((v, vi)) = sel.get(n) else { return vec![] };
        let Some(p) = u.iter().find(|p| p.name == n && p.version == *v) else { return vec![] };
        let extra = vi.and_then(|i| p.variants.get(i)).cloned().unwrap_or_default();
        p.requires.iter().chain(extra.iter()).filter(|q| !q.weak && !q.conflict).map(|q| q.name.clone()).collect()
    };
    for n in sel.keys() {
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut todo = edges(n);
        while let Some(x) = todo.pop() {
            if x == *n {
                return Err(("no-cyclic-selection".into(), json!({"package": n})));
            }
            if seen.insert(x.clone()) {
                todo.extend(edges(&x));
            }
        }
    }
    // reachable from the requests
    let mut reach: BTreeSet<String> = reqs.iter().filter(|q| !q.weak && !q.conflict).map(|q| q.name.clone()).collect();
    let mut todo: Vec<String> = reach.iter().cloned().collect();
    while let Some(n) = todo.pop() {
        if let Some((v, vi)) = sel.get(&n)
            && let Some(p) = u.iter().find(|p| p.name == n && p.version == *v)
        {
            let extra = vi.and_then(|i| p.variants.get(i)).cloned().unwrap_or_default();
            for q in p.requires.iter().chain(extra.iter()).filter(|q| !q.weak && !q.conflict) {
                if reach.insert(q.name.clone()) {
                    todo.push(q.name.clone());
                }
            }
        }
    }
    for n in sel.keys() {
        if !reach.contains(n) {
            return Err(("nothing-unasked-selected".into(), json!({"package": n})));
        }
    }
    Ok(())
}
impl MReq {
    fn text_norm(&self) -> String {
        self.text.parse::<Requirement>().map(|r| r.to_string()).unwrap_or_else(|_| self.text.clone())
    }
}

fn one(m: &mut Mon, rt: &tokio::runtime::Runtime, mgr: Arc<RepositoryManager>, u: &Universe, reqs: &[MReq], c: &SolverConfig) -> Option<Result<DetailedResolutionResult, RezCoreError>> {
    let real = parse_all(reqs)?;
    crumb(describe(u, reqs, c).to_string());
    m.guard("resolve-no-panic", || describe(u, reqs, c), || solve(rt, mgr, real, c))
}

/// shrink a failing case: drop requests, packages and requirements while `bad` still holds
fn shrink(u: &Universe, reqs: &[MReq], bad: &mut dyn FnMut(&Universe, &[MReq]) -> bool) -> (Universe, Vec<MReq>) {
    let (mut u, mut q) = (u.clone(), reqs.to_vec());
    for _ in 0..3 {
        let mut i = 0;
        while i < q.len() && q.len() > 1 {
            let mut t = q.clone();
            t.remove(i);
            if bad(&u, &t) { q = t } else { i += 1 }
        }
        let mut i = 0;
        while i < u.len() {
            let mut t = u.clone();
            t.remove(i);
            if bad(&t, &q) { u = t } else { i += 1 }
        }
        for i in 0..u.len() {
            let mut j = 0;
            while j < u[i].requires.len() {
                let mut t = u.clone();
                t[i].requires.remove(j);
                if bad(&t, &q) { u = t } else { j += 1 }
            }
            if !u[i].variants.is_empty() {
                let mut t = u.clone();
                t[i].variants.clear();
                if bad(&t, &q) { u = t }
            }
        }
    }
    (u, q)
}

pub fn s01(m: &mut Mon) {
    m.describe(
        "random package universes (versions, ranges, weak and conflict requirements, variants, cycles, missing packages) are resolved by the real resolver, strictly and leniently, over an in-memory or an on-disk repository; every answer is replayed clause by clause by an offline checker; distinct = distinct (universe, request, mode)",
        &["requirements use the syntaxes whose admission R01 fully specifies", "an unversioned package satisfies any version constraint on it"],
        800,
    );
    let rt = runtime();
    let mut r = m.rng(4);
    let n = m.size(6000, 12);
    for k in 0..n {
        if m.full() {
            break;
        }
        let sh = shape(&mut r);
        let u = universe(&mut r, &sh);
        let reqs = requests(&mut r, &u, &sh);
        let strict = r.chance(3, 4);
        let c = cfg(strict, r.chance(3, 4), r.chance(1, 3));
        let disk = k % 12 == 0;
        let dir;
        let mgr = if disk {
            let d = util::fresh("repo");
            for p in &u {
                let fam = d.join(&p.name);
                util::write(if p.version.is_empty() { fam } else { fam.join(&p.version) }.join("package.py"), &p.package_py());
            }
            let mut rm = RepositoryManager::new();
            rm.add_repository(Box::new(SimpleRepository::new(&d, "disk".into())));
            dir = Some(d);
            Arc::new(rm)
        } else {
            dir = None;
            manager(&u, &mut r)
        };
        let texts: Vec<String> = reqs.iter().map(|q| q.text.clone()).collect();
        m.seen(&(u.iter().map(|p| p.package_py()).collect::<Vec<_>>(), &texts, strict));
        let Some(res) = one(m, &rt, mgr.clone(), &u, &reqs, &c) else { continue };
        if let Some(d) = dir {
            util::rm(&d);
        }
        if k < 4 {
            m.sample(json!({"requests": texts, "outcome": format!("{:?}", outcome(&res))}));
        }
        match &res {
            Ok(d) => {
                m.count(if strict { "strict_solved" } else { "lenient_solved" }, 1);
                m.count("selected_packages", d.resolved_packages.len() as u64);
                m.count("backtrack_steps", d.stats.backtrack_steps as u64);
                m.count("variants_selected", d.resolved_packages.iter().filter(|p| p.variant_index.is_some()).count() as u64);
                m.count("conflict_requirements", u.iter().flat_map(|p| &p.requires).filter(|q| q.conflict).count() as u64);
                let sel = outcome(&res).unwrap();
                m.check("one-version-per-package", sel.len() == d.resolved_packages.len(), || describe(&u, &reqs, &c));
                let failed: BTreeSet<String> = d.failed_requirements.iter().map(|q| q.to_string()).collect();
                let verdict = judge(&u, &reqs, &sel, c.allow_prerelease, &failed, strict);
                match verdict {
                    Ok(()) => {
                        m.check("answer-consistent", true, || json!(null));
                    }
                    Err((rule, what)) => {
                        let mut rr = Rng::new(7);
                        let (su, sq) = shrink(&u, &reqs, &mut |u, q| {
                            let Some(real) = parse_all(q) else { return false };
                            let mg = manager(u, &mut rr);
                            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| solve(&rt, mg, real, &c))) {
                                Ok(Ok(d)) => {
                                    let f: BTreeSet<String> = d.failed_requirements.iter().map(|q| q.to_string()).collect();
                                    judge(u, q, &outcome(&Ok(d)).unwrap(), c.allow_prerelease, &f, strict).is_err_and(|e| e.0 == rule)
                                }
                                _ => false,
                            }
                        });
                        m.check(&rule, false, || json!({"what": what, "selected": format!("{sel:?}"), "case": describe(&su, &sq, &c)}));
                    }
                }
                m.check("strict-answer-leaves-nothing-failed", !strict || d.failed_requirements.is_empty(), || describe(&u, &reqs, &c));
            }
            Err(_) => {
                m.count(if strict { "strict_refused" } else { "lenient_refused" }, 1);
                m.check("refusal", true, || json!(null));
            }
        }
        // the request-level entry point with constraints and exclusions
        if k % 3 == 0 {
            let cons: Vec<MReq> = if r.chance(1, 2) { vec![MReq { weak: true, conflict: false, ..requests(&mut r, &u, &sh).remove(0) }] } else { vec![] };
            let cons: Vec<MReq> = cons.into_iter().map(|q| MReq { text: format!("~{}", q.text.trim_start_matches(['~', '!'])), ..q }).collect();
            let excl: Vec<String> = if r.chance(1, 2) { vec![r.pick(&u).name.clone()] } else { vec![] };
            let simple: Option<Vec<PackageRequirement>> = reqs.iter().map(|q| PackageRequirement::parse(&q.text).ok()).collect();
            let csimple: Option<Vec<PackageRequirement>> = cons.iter().map(|q| PackageRequirement::parse(q.text.trim_start_matches('~')).ok()).collect();
            let (Some(simple), Some(csimple)) = (simple, csimple) else { continue };
            let mut sr = SolverRequest::new(simple);
            for x in csimple {
                sr = sr.with_constraint(x);
            }
            for x in &excl {
                sr = sr.with_exclude(x.clone());
            }
            let sc = cfg(true, true, true);
            let solver = DependencySolver::with_config(sc.clone()).with_repository_manager(manager(&u, &mut r));
            let Some(res) = m.guard("request-no-panic", || describe(&u, &reqs, &sc), || solver.resolve(sr)) else { continue };
            if let Ok(res) = res {
                m.count("request_level_solved", 1);
                let mut all = reqs.clone();
                all.extend(cons.clone());
                for e in &excl {
                    all.push(MReq { name: e.clone(), weak: false, conflict: true, cs: vec![], text: format!("!{e}") });
                }
                // variants are not reported here: judge only what the answer shows
                let mut bare = u.clone();
                for p in &mut bare {
                    p.variants.clear();
                }
                let sel: BTreeMap<String, (String, Option<usize>)> = res.packages.iter().map(|p| (p.name.clone(), (p.version.as_ref().map(|v| v.as_str().to_string()).unwrap_or_default(), None))).collect();
                let v = judge(&bare, &all, &sel, true, &BTreeSet::new(), true);
                let v = match v {
                    Err((rule, _)) if rule == "nothing-unasked-selected" && u.iter().any(|p| !p.variants.is_empty()) => Ok(()),
                    v => v,
                };
                m.check("request-level-answer-consistent", v.is_ok(), || json!({"verdict": format!("{v:?}"), "constraints": cons.iter().map(|q| &q.text).collect::<Vec<_>>(), "excludes": excl, "selected": format!("{sel:?}"), "case": describe(&u, &reqs, &sc)}));
            }
        }
    }
}

pub fn s02(m: &mut Mon) {
    m.describe(
        "each random universe is resolved many times: listing order permuted, fresh resolvers (fresh hash seeds), one resolver reused, and many resolvers running concurrently over one shared on-disk repository; all answers of one request must be identical; distinct = distinct (universe, request, mode)",
        &["a refusal is the same answer whatever its wording"],
        800,
    );
    let rt = runtime();
    let mut r = m.rng(5);
    let norm = |o: Outcome| o.map_err(|_| "refused".to_string());
    for k in 0..m.size(320, 12) {
        if m.full() {
            break;
        }
        let sh = shape(&mut r);
        let u = universe(&mut r, &sh);
        let reqs = requests(&mut r, &u, &sh);
        let c = cfg(r.chance(1, 2), r.chance(3, 4), r.chance(1, 2));
        let texts: Vec<String> = reqs.iter().map(|q| q.text.clone()).collect();
        m.seen(&(u.iter().map(|p| p.package_py()).collect::<Vec<_>>(), &texts, c.strict_mode));
        let Some(first) = one(m, &rt, manager(&u, &mut r), &u, &reqs, &c) else { continue };
        let failed = |x: &Result<DetailedResolutionResult, RezCoreError>| -> BTreeSet<String> {
            x.as_ref().map(|d| d.failed_requirements.iter().map(|q| q.to_string()).collect()).unwrap_or_default()
        };
        let order = |x: &Result<DetailedResolutionResult, RezCoreError>| -> Vec<String> {
            x.as_ref().map(|d| d.resolved_packages.iter().map(|q| q.package.name.clone()).collect()).unwrap_or_default()
        };
        let (o1, f1, ord1) = (norm(outcome(&first)), failed(&first), order(&first));
        m.count(if o1.is_ok() { "solved" } else { "refused" }, 1);
        for _ in 0..5 {
            let Some(again) = one(m, &rt, manager(&u, &mut r), &u, &reqs, &c) else { break };
            let (o2, f2) = (norm(outcome(&again)), failed(&again));
            m.check("same-answer-for-any-listing-order", o1 == o2, || json!({"first": format!("{o1:?}"), "second": format!("{o2:?}"), "case": describe(&u, &reqs, &c)}));
            m.check("same-failures-for-any-listing-order", f1 == f2, || json!({"first": f1, "second": f2, "case": describe(&u, &reqs, &c)}));
            m.check("same-package-order", ord1 == order(&again), || json!({"first": ord1, "second": order(&again), "case": describe(&u, &reqs, &c)}));
        }
        // one resolver, a history of other requests in between
        if let Some(real) = parse_all(&reqs) {
            let other = parse_all(&requests(&mut r, &u, &sh)).unwrap_or_default();
            let mgr = manager(&u, &mut r);
            let res = m.guard("reuse-no-panic", || describe(&u, &reqs, &c), || {
                rt.block_on(async {
                    let mut d = DependencyResolver::new(mgr, c.clone());
                    let a = d.resolve(real.clone()).await;
                    let _ = d.resolve(other).await;
                    (a, d.resolve(real.clone()).await)
                })
            });
            if let Some((a, b)) = res {
                let (a, b) = (norm(outcome(&a)), norm(outcome(&b)));
                m.check("answer-independent-of-earlier-requests", a == o1 && b == o1, || json!({"fresh": format!("{o1:?}"), "reused": format!("{b:?}"), "case": describe(&u, &reqs, &c)}));
            }
        }
        // shared on-disk repository, concurrent resolvers racing on the first scan
        if k % 8 == 0 {
            let d = util::fresh("repo");
            for p in &u {
                util::write(d.join(&p.name).join(&p.version).join("package.py"), &p.package_py());
            }
            let mut rm = RepositoryManager::new();
            rm.add_repository(Box::new(SimpleRepository::new(&d, "disk".into())));
            let mgr = Arc::new(rm);
            let mrt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
            if let Some(real) = parse_all(&reqs) {
                let outs: Vec<Outcome> = mrt.block_on(async {
                    let mut hs = vec![];
                    for i in 0..8 {
                        let (mgr, c, real) = (mgr.clone(), c.clone(), real.clone());
                        hs.push(tokio::spawn(async move {
                            if i % 2 == 1 {
                                tokio::task::yield_now().await;
                            }
                            outcome(&DependencyResolver::new(mgr, c).resolve(real).await)
                        }));
                    }
                    let mut out = vec![];
                    for h in hs {
                        if let Ok(o) = h.await {
                            out.push(o);
                        }
                    }
                    out
                });
                m.count("concurrent_resolves", outs.len() as u64);
                m.check("concurrent-resolves-all-return", outs.len() == 8, || describe(&u, &reqs, &c));
                for o in outs {
                    let o = norm(o);
                    m.check("same-answer-when-concurrent", o == o1, || json!({"sequential": format!("{o1:?}"), "concurrent": format!("{o:?}"), "case": describe(&u, &reqs, &c)}));
                }
            }
            util::rm(&d);
        }
    }
}

pub fn s03(m: &mut Mon) {
    m.describe(
        "dense, cyclic, contradictory and adversarial universes (packages that keep exchanging each other, deep chains, wide fans) are resolved under a time limit per resolve; the monitor records how long each took and that it returned; distinct = distinct (universe, request, mode)",
        &["a resolve over fewer than 120 package versions that has not returned after 60 s is taken not to return"],
        300,
    );
    let mut r = m.rng(6);
    let mk = |name: &str, version: &str, reqs: &[&str]| MPkg {
        name: name.into(),
        version: version.into(),
        requires: reqs.iter().map(|t| {
            let q: Requirement = t.parse().unwrap();
            MReq { name: q.name.clone(), weak: q.weak, conflict: q.conflict, cs: vec![], text: t.to_string() }
        }).collect(),
        variants: vec![],
    };
    let rq = |t: &str| { let q: Requirement = t.parse().unwrap(); MReq { name: q.name.clone(), weak: q.weak, conflict: q.conflict, cs: vec![], text: t.into() } };
    let mut cases: Vec<(Universe, Vec<MReq>)> = vec![
        (vec![mk("a", "1.0", &["b"]), mk("a", "2.0", &["c"]), mk("b", "1.0", &["a==2.0"]), mk("c", "1.0", &["a==1.0"])], vec![rq("a==1.0")]),
        (vec![mk("a", "1.0", &["b"]), mk("a", "2.0", &["c"]), mk("b", "1.0", &["a==2.0"]), mk("c", "1.0", &["a==1.0"])], vec![rq("a")]),
        (vec![mk("a", "1.0", &["b==1.0"]), mk("a", "2.0", &["b==2.0"]), mk("b", "1.0", &["a==2.0"]), mk("b", "2.0", &["a==1.0"])], vec![rq("a"), rq("b")]),
        (vec![mk("a", "1.0", &["!b-1"]), mk("a", "2.0", &["!b-2"]), mk("b", "1.0", &["!a-1"]), mk("b", "2.0", &["!a-2"])], vec![rq("a"), rq("b")]),
        (vec![mk("a", "1.0", &["a"])], vec![rq("a")]),
        (vec![mk("a", "1.0", &["~b==1.0"]), mk("b", "1.0", &["~a==2.0"]), mk("b", "2.0", &["~a==1.0"])], vec![rq("a"), rq("b")]),
        (vec![mk("a", "1.0", &["!a"])], vec![rq("a")]),
    ];
    // a chain of 60 and a fan of 60
    cases.push(((0..60).map(|i| mk(&format!("c{i}"), "1.0", &[&format!("c{}", i + 1)])).chain([mk("c60", "1.0", &[])]).collect(), vec![rq("c0")]));
    let fan: Vec<String> = (0..60).map(|i| format!("f{i}")).collect();
    let fr: Vec<&str> = fan.iter().map(|s| s.as_str()).collect();
    cases.push((fan.iter().map(|f| mk(f, "1.0", &[])).chain([mk("top", "1.0", &fr)]).collect(), vec![rq("top")]));
    let rand_cases = m.size(300, 12);
    let (tx, rx) = std::sync::mpsc::channel();
    for k in 0..rand_cases + cases.len() {
        if m.full() {
            break;
        }
        let (u, reqs, c) = if k < cases.len() {
            let (u, q) = cases[k].clone();
            (u, q, cfg(true, true, true))
        } else {
            let sh = Shape { fams: r.range(2, 8), conflicts: *r.pick(&[0, 20, 40]), weak: *r.pick(&[0, 20]), variants: *r.pick(&[0, 50]), cyclic: *r.pick(&[30, 70, 100]), tight: *r.pick(&[60, 95]) };
            let u = universe(&mut r, &sh);
            let q = requests(&mut r, &u, &sh);
            let (a, b) = (r.chance(1, 2), r.chance(1, 2));
            (u, q, cfg(a, b, true))
        };
        for strict in [c.strict_mode, !c.strict_mode].into_iter().take(if k < cases.len() { 2 } else { 1 }) {
            let c = SolverConfig { strict_mode: strict, ..c.clone() };
            let texts: Vec<String> = reqs.iter().map(|q| q.text.clone()).collect();
            m.seen(&(u.iter().map(|p| p.package_py()).collect::<Vec<_>>(), &texts, strict));
            let Some(real) = parse_all(&reqs) else { continue };
            let mgr = manager(&u, &mut r);
            let (tx, c2) = (tx.clone(), c.clone());
            crumb(describe(&u, &reqs, &c).to_string());
            let t0 = std::time::Instant::now();
            std::thread::spawn(move || {
                let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let rt = runtime();
                    solve(&rt, mgr, real, &c2).is_ok()
                }));
                let _ = tx.send(out.map_err(|_| crate::mon::take_panic()));
            });
            match rx.recv_timeout(std::time::Duration::from_secs(60)) {
                Ok(Ok(ok)) => {
                    m.check("resolve-returns", true, || json!(null));
                    m.count(if ok { "answered" } else { "refused" }, 1);
                    let ms = t0.elapsed().as_millis() as u64;
                    m.count(match ms { 0..=99 => "under_100ms", 100..=999 => "under_1s", _ => "over_1s" }, 1);
                }
                Ok(Err(p)) => {
                    m.check("resolve-no-panic", false, || json!({"panic": p, "case": describe(&u, &reqs, &c)}));
                }
                Err(_) => {
                    m.check("resolve-returns", false, || json!({"what": "no answer after 60 s", "case": describe(&u, &reqs, &c)}));
                    return; // the runaway thread keeps the channel: stop here
                }
            }
        }
    }
}

pub fn s04(m: &mut Mon) {
    m.describe(
        "for random universes the oracle computes the selection that takes, for every package needed, the newest (or oldest, when so configured) version the request itself admits; whenever that selection is consistent, the resolver must answer with exactly it; distinct = distinct (universe, request, preference)",
        &["variants in this workload ask for equally many packages each, of families no other package names", "cases where that selection is not consistent are not judged"],
        200,
    );
    let rt = runtime();
    let mut r = m.rng(7);
    for k in 0..m.size(5000, 12) {
        if m.full() {
            break;
        }
        let sh = Shape { fams: r.range(1, 6), conflicts: *r.pick(&[0, 5]), weak: *r.pick(&[0, 10]), variants: 0, cyclic: 0, tight: *r.pick(&[10, 30]) };
        let mut u = universe(&mut r, &sh);
        let mut reqs = requests(&mut r, &u, &sh);
        let latest = r.chance(2, 3);
        let pre = r.chance(1, 2);
        // variants that differ in packages of their own: (package, version) -> the expected index
        let mut wanted: BTreeMap<(String, String), usize> = BTreeMap::new();
        if r.chance(1, 3) {
            for i in 0..u.len() {
                if r.chance(1, 2) {
                    continue;
                }
                let (nv, width) = (r.range(2, 4), r.range(1, 2));
                let mut named = None;
                let mut extra = vec![];
                for v in 0..nv {
                    let mut vr = vec![];
                    for w in 0..width {
                        let n = format!("x{i}v{v}w{w}");
                        let vs: Vec<String> = ["1.0", "2.0", "10.0"].iter().take(r.range(1, 3)).map(|s| s.to_string()).collect();
                        for x in &vs {
                            extra.push(MPkg { name: n.clone(), version: x.clone(), requires: vec![], variants: vec![] });
                        }
                        vr.push(if r.chance(1, 2) { MReq { name: n.clone(), weak: false, conflict: false, cs: vec![], text: n.clone() } } else { let f = r.pick(&vs).clone(); MReq { name: n.clone(), weak: false, conflict: false, cs: vec![C::Op(">=", f.clone())], text: format!("{n}>={f}") } });
                    }
                    if named.is_none() && r.chance(1, 6) {
                        let n = vr[r.below(width)].name.clone();
                        reqs.insert(r.below(reqs.len() + 1), MReq { name: n.clone(), weak: false, conflict: false, cs: vec![], text: n });
                        named = Some(v);
                    }
                    u[i].variants.push(vr);
                }
                u.extend(extra);
                wanted.insert((u[i].name.clone(), u[i].version.clone()), named.unwrap_or(0));
            }
        }
        let c = cfg(r.chance(1, 2), latest, pre);
        // the reference selection
        let mut sel: BTreeMap<String, (String, Option<usize>)> = BTreeMap::new();
        let mut todo: Vec<String> = reqs.iter().filter(|q| !q.weak && !q.conflict).map(|q| q.name.clone()).collect();
        let mut possible = true;
        while let Some(n) = todo.pop() {
            if sel.contains_key(&n) {
                continue;
            }
            let mut cands: Vec<&MPkg> = u.iter().filter(|p| p.name == n && (pre || !is_pre(&p.version)))
                .filter(|p| reqs.iter().filter(|q| q.name == n).all(|q| holds(q, &p.version) != q.conflict)).collect();
            cands.sort_by(|a, b| mcmp(&model(&a.version), &model(&b.version)));
            let pick = if latest { cands.last() } else { cands.first() };
            let Some(p) = pick else { possible = false; break };
            let vi = wanted.get(&(p.name.clone(), p.version.clone())).copied();
            sel.insert(n.clone(), (p.version.clone(), vi));
            let chosen = vi.map(|i| p.variants[i].clone()).unwrap_or_default();
            todo.extend(chosen.iter().map(|q| q.name.clone()));
            todo.extend(p.requires.iter().filter(|q| !q.weak && !q.conflict).map(|q| q.name.clone()));
        }
        if !possible || judge(&u, &reqs, &sel, pre, &BTreeSet::new(), true).is_err() {
            m.inconclusive("reference-selection-not-consistent");
            continue;
        }
        let texts: Vec<String> = reqs.iter().map(|q| q.text.clone()).collect();
        m.seen(&(u.iter().map(|p| p.package_py()).collect::<Vec<_>>(), &texts, latest));
        let Some(res) = one(m, &rt, manager(&u, &mut r), &u, &reqs, &c) else { continue };
        let got = outcome(&res);
        m.check("preferred-selection-is-the-answer", got.as_ref().is_ok_and(|g| *g == sel), || json!({"got": format!("{got:?}"), "want": format!("{sel:?}"), "case": describe(&u, &reqs, &c)}));
        m.count(if latest { "newest_preferred" } else { "oldest_preferred" }, 1);
        m.count("selected_packages", sel.len() as u64);
        m.count("variants_chosen", sel.values().filter(|x| x.1.is_some()).count() as u64);
        if let Ok(d) = &res {
            for p in &d.resolved_packages {
                let direct = reqs.iter().any(|q| q.name == p.package.name);
                m.check("requested-flag", p.requested == direct, || json!({"package": p.package.name, "requested": p.requested, "case": describe(&u, &reqs, &c)}));
            }
        }
        if k < 4 {
            m.sample(json!({"requests": texts, "answer": format!("{sel:?}")}));
        }
    }
}

pub fn s05(m: &mut Mon) {
    m.describe(
        "random requests of packages over shared libraries, in which exactly one package has a choice of versions and its direct requirements (and exclusions) decide which version works with the rest; the oracle tries every version of that package; whenever one works a strict resolve must answer with the most preferred such version, and refuse when none does; distinct = distinct (universe, request, preference)",
        &["libraries require nothing and exactly one requested package has more than one version: the resolver's search is not complete beyond that and nothing is claimed there", "requirements use the syntaxes whose admission R01 fully specifies"],
        1000,
    );
    let rt = runtime();
    let mut r = m.rng(8);
    for k in 0..m.size(4000, 12) {
        if m.full() {
            break;
        }
        // leaf libraries with several versions; tools and apps above them, of which one has a choice
        let (ns, nm, nl) = (r.range(1, 4), 0, r.range(1, 3));
        let lv = ["1.0", "2.0", "3.0", "4.0"];
        let mut u: Universe = vec![];
        let mut libs: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for l in 0..nl {
            let vs: Vec<String> = lv.iter().take(r.range(1, 4)).map(|s| s.to_string()).collect();
            for v in &vs {
                u.push(MPkg { name: format!("lib{l}"), version: v.clone(), requires: vec![], variants: vec![] });
            }
            libs.insert(format!("lib{l}"), vs);
        }
        let names: Vec<String> = (0..ns).map(|s| format!("app{s}")).chain((0..nm).map(|s| format!("mid{s}"))).collect();
        let fam = r.pick(&names).clone();
        let sh = Shape { fams: 0, conflicts: *r.pick(&[0, 0, 10]), weak: *r.pick(&[0, 0, 10]), variants: 0, cyclic: 0, tight: *r.pick(&[50, 95]) };
        for name in &names {
            let n = if *name == fam { r.range(2, 5) } else { 1 };
            for v in 0..n {
                let mut requires = vec![];
                for (l, vs) in &libs {
                    if r.chance(1, 2) {
                        let mut vs = vs.clone();
                        if *name == fam && r.chance(1, 4) {
                            vs.push("9.0".into());
                        }
                        requires.push(req(&mut r, l, &sh, &vs));
                    }
                }
                for t in 0..nm {
                    let below = name.starts_with("app") || name[3..].parse::<usize>().is_ok_and(|k| k < t);
                    if below && r.chance(1, 3) {
                        let t = format!("mid{t}");
                        requires.push(MReq { name: t.clone(), weak: false, conflict: false, cs: vec![], text: t });
                    }
                }
                if *name == fam && r.chance(1, 4) {
                    // a version that cannot work brings a package whose own demands must not outlive it
                    if r.chance(1, 2) {
                        requires.push(MReq { name: "guest".into(), weak: false, conflict: false, cs: vec![], text: "guest".into() });
                    }
                    requires.push(MReq { name: "absent".into(), weak: false, conflict: false, cs: vec![], text: "absent".into() });
                }
                r.shuffle(&mut requires);
                u.push(MPkg { name: name.clone(), version: format!("{}.0", v + 1), requires, variants: vec![] });
            }
        }
        let gsh = Shape { conflicts: 60, ..sh };
        let demands = libs.iter().map(|(l, vs)| req(&mut r, l, &gsh, vs)).collect();
        u.push(MPkg { name: "guest".into(), version: "1.0".into(), requires: demands, variants: vec![] });
        let mut reqs: Vec<MReq> = (0..ns).map(|s| MReq { name: format!("app{s}"), weak: false, conflict: false, cs: vec![], text: format!("app{s}") }).collect();
        if r.chance(1, 3) {
            let l = format!("lib{}", r.below(nl));
            let q = req(&mut r, &l, &sh, &libs[&l].clone());
            reqs.push(q);
        }
        r.shuffle(&mut reqs);
        let latest = r.chance(2, 3);
        let c = cfg(true, latest, true);
        // does any version of the one package with a choice work?
        let mut works = vec![];
        for p in u.iter().filter(|p| p.name == fam) {
            let mut picked: BTreeMap<String, &MPkg> = BTreeMap::new();
            let mut todo: Vec<String> = reqs.iter().filter(|q| !q.weak && !q.conflict).map(|q| q.name.clone()).collect();
            let mut ok = true;
            while let Some(n) = todo.pop() {
                if n.starts_with("lib") || picked.contains_key(&n) {
                    continue;
                }
                let Some(q) = u.iter().find(|q| q.name == n && (n != fam || q.version == p.version)) else { ok = false; break };
                picked.insert(n, q);
                todo.extend(q.requires.iter().filter(|q| !q.weak && !q.conflict).map(|q| q.name.clone()));
            }
            let active: Vec<&MReq> = reqs.iter().chain(picked.values().flat_map(|p| &p.requires)).collect();
            ok = ok && libs.iter().all(|(l, vs)| {
                let needed = active.iter().any(|q| q.name == *l && !q.weak && !q.conflict);
                !needed || vs.iter().any(|v| active.iter().filter(|q| q.name == *l).all(|q| holds(q, v) != q.conflict))
            });
            if ok {
                works.push(p.version.clone());
            }
        }
        m.count(if works.is_empty() { "unsolvable" } else { "solvable" }, 1);
        let texts: Vec<String> = reqs.iter().map(|q| q.text.clone()).collect();
        m.seen(&(u.iter().map(|p| p.package_py()).collect::<Vec<_>>(), &texts, latest));
        let Some(res) = one(m, &rt, manager(&u, &mut r), &u, &reqs, &c) else { continue };
        let got = outcome(&res);
        if works.is_empty() {
            m.check("no-answer-invented", got.is_err(), || json!({"got": format!("{got:?}"), "case": describe(&u, &reqs, &c)}));
            continue;
        }
        let newest = u.iter().filter(|p| p.name == fam).map(|p| p.version.clone()).collect::<Vec<_>>();
        let pref = if latest { newest.last() } else { newest.first() };
        if !works.contains(pref.unwrap()) {
            m.count("had_to_back_off", 1);
        }
        let want = if latest { works.last() } else { works.first() };
        m.check("an-answer-is-found", got.is_ok(), || json!({"got": format!("{got:?}"), "works": works, "case": describe(&u, &reqs, &c)}));
        if let Ok(g) = &got {
            m.check("the-most-preferred-that-works", g.get(&fam).is_none_or(|x| Some(&x.0) == want), || json!({"got": format!("{got:?}"), "works": works, "case": describe(&u, &reqs, &c)}));
        }
        if k < 4 {
            m.sample(json!({"requests": texts, "answer": format!("{got:?}")}));
        }
    }
}
