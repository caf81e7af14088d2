//! B01: the life of a build; B02: binary archives and artifacts; L01: releases
use crate::files::{rez_env, tree, Tree};
use crate::mon::{crumb, Mon, Rng};
use crate::util;
use rez_next_build::*;
use rez_next_package::Package;
use rez_next_version::Version;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::mpsc;
use std::time::Duration;

/// a judged observation made on a worker thread
pub struct Obs {
    rule: &'static str,
    ok: bool,
    detail: Value,
}
#[derive(Default)]
pub struct Rec {
    pub obs: Vec<Obs>,
    pub counts: BTreeMap<String, u64>,
    pub seen: Vec<String>,
}
impl Rec {
    pub fn check(&mut self, rule: &'static str, ok: bool, d: impl FnOnce() -> Value) {
        let detail = if ok { Value::Null } else { d() };
        self.obs.push(Obs { rule, ok, detail });
    }
    pub fn count(&mut self, k: impl Into<String>) {
        *self.counts.entry(k.into()).or_default() += 1;
    }
}
fn absorb(m: &mut Mon, rec: Rec) {
    for o in rec.obs {
        m.check(o.rule, o.ok, || o.detail.clone());
    }
    for (k, n) in rec.counts {
        m.count(&k, n);
    }
    for s in rec.seen {
        m.seen(&s);
        m.sample(json!(s));
    }
}
/// run `n` scenarios on worker threads, judge in the main thread
pub fn parallel(m: &mut Mon, n: usize, workers: usize, f: impl Fn(Rng, usize) -> Rec + Send + Sync + Clone + 'static) {
    let base = m.rng(77).next();
    let (tx, rx) = mpsc::channel();
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let mut hs = vec![];
    for _ in 0..workers {
        let (tx, next, f) = (tx.clone(), next.clone(), f.clone());
        hs.push(std::thread::spawn(move || loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if i >= n {
                break;
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(Rng::new(base ^ (i as u64).wrapping_mul(0x9E37)), i)));
            let rec = r.unwrap_or_else(|_| {
                let (loc, msg) = crate::mon::take_panic();
                let mut rec = Rec::default();
                rec.check("no operation panics", false, || json!({"at": loc, "message": msg, "scenario": i}));
                rec
            });
            if tx.send(rec).is_err() {
                break;
            }
        }));
    }
    drop(tx);
    while let Ok(rec) = rx.recv() {
        crumb("scenario".into());
        absorb(m, rec);
        if m.full() || m.out_of_time() {
            next.store(n, std::sync::atomic::Ordering::Relaxed);
        }
    }
    for h in hs {
        let _ = h.join();
    }
}
fn delta(got: &Tree, want: &Tree) -> Value {
    let cut = |m: Vec<(&String, &String)>| m.into_iter().take(6).map(|(k, v)| format!("{k}: {}", v.chars().take(60).collect::<String>())).collect::<Vec<_>>();
    json!({"missing": cut(want.iter().filter(|(k, v)| got.get(*k) != Some(v)).collect()), "unexpected": cut(got.iter().filter(|(k, v)| want.get(*k) != Some(v)).collect())})
}
/// directory permissions are not part of what an install promises
fn plain(t: Tree) -> Tree {
    t.into_iter().map(|(k, v)| (k, if v.starts_with("dir ") { "dir".into() } else { v })).collect()
}

const STEPS: [BuildStep; 8] = [
    BuildStep::Preparing,
    BuildStep::Configuring,
    BuildStep::Compiling,
    BuildStep::Testing,
    BuildStep::Packaging,
    BuildStep::Installing,
    BuildStep::PackageTesting,
    BuildStep::Cleanup,
];
const SKIP: [&str; 8] = [".git", ".gitignore", "build", "dist", "__pycache__", "node_modules", ".rez_build", ".tox"];

#[derive(Clone, Debug)]
struct Case {
    label: String,
    request: BuildRequest,
    install_dir: Option<PathBuf>,
    log: PathBuf,
    /// index into STEPS of the step that fails
    fails_at: Option<usize>,
    want_log: Vec<String>,
    want_install: Option<Tree>,
    source_before: Tree,
    slow: bool,
    want_env: BTreeMap<String, String>,
    marker: Option<String>,
}

fn gen_source(r: &mut Rng, d: &Path) -> Tree {
    let mut want = Tree::new();
    let n = r.range(1, 6);
    for i in 0..n {
        let sub = *r.pick(&["", "python", "lib/deep", "a b", "ünï", "lib", "data/build", "data/dist", ".cfg", ".github", "build-x", "distx", "node"]);
        let name = format!("f{i}{}", r.pick(&["", ".txt", ".py", ".sh", ".pyc.bak", ".json", ".tmp", ".logs", ".bak"]));
        let name = if i == 0 && r.chance(1, 3) { r.pick(&[".gitattributes", ".gitkeep", ".env", "Makefile", "build.txt", "log"]).to_string() } else { name };
        let rel = if sub.is_empty() { name } else { format!("{sub}/{name}") };
        let len = *r.pick(&[0usize, 1, 9, 200, 9000, 70_000]);
        let body = format!("{}{}", r.below(10_000), "q".repeat(len));
        util::write(d.join(&rel), &body);
        let mode = *r.pick(&[0o644u32, 0o755, 0o600, 0o444, 0o555, 0o750]);
        std::fs::set_permissions(d.join(&rel), std::fs::Permissions::from_mode(mode)).unwrap();
        want.insert(rel.clone(), format!("file {mode:o} {body}"));
        let mut p = Path::new(&rel);
        while let Some(q) = p.parent() {
            if !q.as_os_str().is_empty() {
                want.insert(q.to_string_lossy().to_string(), "dir".into());
            }
            p = q;
        }
    }
    if r.chance(1, 3) {
        std::fs::create_dir_all(d.join("empty/in")).unwrap();
        want.insert("empty".into(), "dir".into());
        want.insert("empty/in".into(), "dir".into());
    }
    // names that are never installed
    for _ in 0..r.below(4) {
        let s = *r.pick(&SKIP);
        if s.starts_with(".git") && s.len() > 4 {
            util::write(d.join(s), "x");
        } else {
            util::write(d.join(s).join("junk"), "x");
        }
    }
    if r.chance(1, 3) {
        util::write(d.join("old.log"), "x");
        util::write(d.join("mod.pyc"), "x");
    }
    want
}

fn gen_case(r: &mut Rng, top: &Path, build_dir: &Path, i: usize, config_env: &HashMap<String, String>, may_slow: bool) -> Case {
    let kind = r.below(4); // 0 copy-only, 1 build_command, 2 build.sh, 3 rezbuild.py
    let spaced = r.chance(1, 6);
    let odd = *r.pick(&["&", "'", "(p)", ";", "#", "$x", "*", "ü", "\"", "!"]);
    let src = top.join(if spaced { format!("src {i}") } else if kind >= 2 && r.chance(1, 5) { format!("src{odd}{i}") } else { format!("src{i}") });
    std::fs::create_dir_all(&src).unwrap();
    let name = format!("{}{i}", r.pick(&["pkg", "my_tool", "Lib-x", "a.b"]));
    let ver = (!r.chance(1, 8)).then(|| r.pick(&["1.0.0", "2", "1.2.3-beta.4", "0.0.1"]).to_string());
    let log = top.join(format!("effects{i}"));
    let mut p = Package::new(name.clone());
    p.version = ver.as_ref().map(|v| Version::parse(v).unwrap());
    p.description = r.chance(1, 2).then(|| format!("{}about {i}{}", r.pick(&["", " ", "\n"]), r.pick(&["", "\nin two lines", "  ", ": it's"])));
    if r.chance(1, 3) {
        p.requires = vec!["python-3".into(), "lib_b".into()];
    }
    if r.chance(1, 3) {
        p.build_requires = vec!["cmake-3+".into()];
    }
    if r.chance(1, 3) {
        p.private_build_requires = vec!["inner_lib<2".into()];
    }
    let all_requires: Vec<String> = p.requires.iter().chain(&p.build_requires).chain(&p.private_build_requires).cloned().collect();
    let bare = |v: &[String]| v.iter().map(|x| x.split(|c| c == '-' || c == '<').next().unwrap()).collect::<Vec<_>>().join(" ");
    let mut want_src = gen_source(r, &src);
    let pkgpy = format!("name = '{name}'\n");
    util::write(src.join("package.py"), &pkgpy);
    std::fs::set_permissions(src.join("package.py"), std::fs::Permissions::from_mode(0o644)).unwrap();
    want_src.insert("package.py".into(), format!("file 644 {pkgpy}"));

    let slow = may_slow && r.chance(1, 2);
    let marker = format!("marker{}", r.below(1_000_000));
    let mut fails_at = None;
    let mut want_log = vec![];
    let variant = ((kind == 1 || kind == 2) && r.chance(1, 3)).then(|| r.below(3));
    let install_path = match r.below(4) {
        0 if variant.is_none() => None,
        1 if kind < 2 => Some(src.join("pkgs_out")),
        _ => Some(top.join(format!("packages{}", r.below(2)))),
    };
    let ver_dir = ver.clone().unwrap_or("0.0.0".into());
    let bd = build_dir.join(&name);
    let install_dir = install_path.as_ref().map(|q| q.join(&name).join(&ver_dir)).unwrap_or(bd.join("install"));
    let mut want_install = Tree::new();
    let beat = |phase: &str| (0..30).map(|k| format!("echo {phase}.{k} >> \"$B01_LOG\"; /bin/sleep 0.05")).collect::<Vec<_>>().join("\n");
    let mut want_env: BTreeMap<String, String> = BTreeMap::new();
    let mut request_env: HashMap<String, String> = HashMap::from([("B01_LOG".into(), log.to_string_lossy().to_string())]);
    match kind {
        0 => {
            p.build_command = r.pick(&[None, Some("false"), Some("False"), Some("")]).map(|s| s.to_string());
            want_install = want_src.clone();
            if r.chance(1, 10) && install_path.as_ref().is_none_or(|q| !q.starts_with(&src)) {
                // the source disappears before it is installed
                p.build_command = Some("False".into());
                std::fs::remove_dir_all(&src).unwrap();
                fails_at = Some(5);
            }
        }
        1 => {
            let fail = r.chance(1, 4);
            let mut c = String::from("echo \"cmd|{root}|{install_path}|{build_path}|{name}|{version}|{variant_index}\" >> \"$B01_LOG\"");
            if slow {
                c.push_str(&format!("\n{}", beat("cmd")));
                want_log.extend((0..30).map(|k| format!("cmd.{k}")));
            }
            if r.chance(1, 2) {
                c.push_str("\necho -n made > \"{install_path}/made.txt\"");
                want_install.insert("made.txt".into(), "file 644 made".into());
            }
            if variant.is_some() {
                // a variant builds in a directory of its own
                c = c.replace("{build_path}", "");
                p.variants = (0..3).map(|k| vec![format!("python-{k}"), "maya".to_string()]).collect();
            }
            if fail {
                c.push_str(&format!("\necho first >&2\necho {marker} >&2\nexit {}", r.range(1, 9)));
                fails_at = Some(5);
            }
            p.build_command = Some(c);
            let mut first = vec![format!(
                "cmd|{}|{}|{}|{name}|{}|{}",
                src.display(),
                install_dir.display(),
                if variant.is_some() { String::new() } else { bd.display().to_string() },
                ver.clone().unwrap_or_default(),
                variant.map(|v| v.to_string()).unwrap_or_default()
            )];
            first.append(&mut want_log);
            want_log = first;
            want_install.extend(want_src.clone());
        }
        2 => {
            let fail = r.below(6);
            let vars = [
                "REZ_BUILD_ENV", "REZ_BUILD_TYPE", "REZ_BUILD_INSTALL", "REZ_BUILD_PROJECT_NAME", "REZ_BUILD_PROJECT_VERSION", "REZ_BUILD_INSTALL_PATH",
                "REZ_BUILD_PATH", "REZ_BUILD_SOURCE_PATH", "REZ_BUILD_PROJECT_FILE", "REZ_BUILD_VARIANT_INDEX", "REZ_BUILD_VARIANT_REQUIRES", "REZ_BUILD_REQUIRES",
                "REZ_BUILD_REQUIRES_UNVERSIONED", "REZ_BUILD_PROJECT_DESCRIPTION", "B01_CONF", "B01_REQ", "B01_BOTH",
            ];
            let mut s = format!("NL=$'\\n'\necho \"$1\" >> \"$B01_LOG\"\nif [ \"$1\" = build ]; then for v in {}; do printf '%s=%s\\n' \"$v\" \"${{!v//$NL/<NL>}}\" >> \"$B01_LOG.env\"; done; fi\n", vars.join(" "));
            s.push_str("mkdir -p \"$REZ_BUILD_PATH/tmp\"; echo x > \"$REZ_BUILD_PATH/tmp/x\"; echo \"$REZ_BUILD_PATH/tmp/x\" > \"$B01_LOG.tmp\"\n");
            want_log.push("build".into());
            if slow {
                s.push_str(&beat("$1"));
                s.push('\n');
                want_log.extend((0..30).map(|k| format!("build.{k}")));
            }
            if fail == 0 {
                s.push_str(&format!("if [ \"$1\" = build ]; then echo first >&2; echo {marker} >&2; exit 3; fi\n"));
                fails_at = Some(2);
            } else {
                want_log.push("install".into());
                if slow {
                    want_log.extend((0..30).map(|k| format!("install.{k}")));
                }
            }
            s.push_str("if [ \"$1\" = install ]; then mkdir -p \"$REZ_BUILD_INSTALL_PATH/bin\"; echo -n tool > \"$REZ_BUILD_INSTALL_PATH/bin/tool\"; fi\n");
            want_install.insert("bin".into(), "dir".into());
            want_install.insert("bin/tool".into(), "file 644 tool".into());
            if fail == 1 {
                s.push_str(&format!("if [ \"$1\" = install ]; then echo {marker} >&2; exit 4; fi\n"));
                fails_at = Some(5);
            }
            util::write(src.join("build.sh"), &s);
            want_env = BTreeMap::from(
                [
                    ("REZ_BUILD_ENV", "1".into()),
                    ("REZ_BUILD_TYPE", "local".into()),
                    ("REZ_BUILD_INSTALL", if install_path.is_some() { "1".into() } else { "0".into() }),
                    ("REZ_BUILD_PROJECT_NAME", name.clone()),
                    ("REZ_BUILD_PROJECT_VERSION", ver_dir.clone()),
                    ("REZ_BUILD_INSTALL_PATH", install_dir.to_string_lossy().to_string()),
                    ("REZ_BUILD_PATH", bd.to_string_lossy().to_string()),
                    ("REZ_BUILD_SOURCE_PATH", src.to_string_lossy().to_string()),
                    ("REZ_BUILD_PROJECT_FILE", src.join("package.py").to_string_lossy().to_string()),
                    ("REZ_BUILD_VARIANT_INDEX", "0".into()),
                    ("REZ_BUILD_VARIANT_REQUIRES", String::new()),
                    ("REZ_BUILD_REQUIRES", all_requires.join(" ")),
                    ("REZ_BUILD_REQUIRES_UNVERSIONED", bare(&all_requires)),
                    ("REZ_BUILD_PROJECT_DESCRIPTION", p.description.clone().unwrap_or_default().trim().replace('\n', "<NL>")),
                ]
                .map(|(k, v): (&str, String)| (k.to_string(), v)),
            );
            if let Some(v) = variant {
                p.variants = (0..3).map(|k| vec![format!("python-{k}"), "maya".to_string()]).collect();
                want_env.remove("REZ_BUILD_PATH");
                want_env.insert("REZ_BUILD_VARIANT_INDEX".into(), v.to_string());
                want_env.insert("REZ_BUILD_VARIANT_REQUIRES".into(), format!("python-{v} maya"));
                let mut all = all_requires.clone();
                all.extend(p.variants[v].clone());
                want_env.insert("REZ_BUILD_REQUIRES".into(), all.join(" "));
                want_env.insert("REZ_BUILD_REQUIRES_UNVERSIONED".into(), bare(&all));
            }
            request_env.insert("B01_REQ".into(), format!("r {i}"));
            if r.chance(1, 2) {
                request_env.insert("B01_BOTH".into(), "request".into());
            }
            for k in ["B01_CONF", "B01_REQ", "B01_BOTH"] {
                want_env.insert(k.into(), request_env.get(k).or(config_env.get(k)).cloned().unwrap_or_default());
            }
        }
        _ => {
            let fail = r.below(6);
            if r.chance(1, 2) {
                request_env.insert("PYTHONPATH".into(), "/given/one:/given/two".into());
                want_env.insert("B01_PP".into(), "True".into());
            }
            let mut s = String::from("import os, sys, time\nwith open(os.environ['B01_LOG'] + '.env', 'w') as f: f.write('B01_PP=%s\\n' % (':' + os.environ.get('PYTHONPATH', '')).endswith(':/given/one:/given/two'))\nlog = os.environ['B01_LOG']\ndef say(x):\n    with open(log, 'a') as f: f.write(x + '\\n')\nphase = sys.argv[1]\nsay(phase)\nprint('out', phase)\n");
            want_log.push("build".into());
            if slow {
                s.push_str("for k in range(30):\n    say(phase + '.%d' % k)\n    time.sleep(0.05)\n");
                want_log.extend((0..30).map(|k| format!("build.{k}")));
            }
            if fail == 0 {
                s.push_str(&format!("if phase == 'build':\n    sys.stderr.write('{marker}\\n')\n    sys.exit(5)\n"));
                fails_at = Some(2);
            } else {
                want_log.push("install".into());
                if slow {
                    want_log.extend((0..30).map(|k| format!("install.{k}")));
                }
            }
            s.push_str("if phase == 'install':\n    d = os.environ['REZ_BUILD_INSTALL_PATH']\n    with open(os.path.join(d, 'mod.py'), 'w') as f: f.write('x = 1\\n')\n");
            want_install.insert("mod.py".into(), "file 644 x = 1\n".into());
            if fail == 1 {
                s.push_str(&format!("if phase == 'install': raise RuntimeError('{marker}')\n"));
                fails_at = Some(5);
            }
            util::write(src.join("rezbuild.py"), &s);
        }
    }
    // a source that cannot be read cannot be installed
    let mut unreadable = false;
    if kind < 2 && fails_at.is_none() && r.chance(1, 10) {
        let f = src.join("python").join("secret");
        util::write(&f, "x");
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0)).unwrap();
        if std::fs::read(&f).is_err() {
            fails_at = Some(5);
            unreadable = true;
        } else {
            std::fs::remove_file(&f).unwrap();
        }
    }
    if kind >= 2 {
        std::fs::set_permissions(src.join(if kind == 2 { "build.sh" } else { "rezbuild.py" }), std::fs::Permissions::from_mode(0o644)).unwrap();
    }
    // tests declared by the package run after the install, in name order, until one fails
    let skip_tests = r.chance(1, 5);
    if r.chance(1, 2) {
        let sees = r.chance(1, 2);
        if sees {
            p.commands = Some("env.setenv(\"B01_C\", \"in-commands\")\nenv.setenv(\"B01_PO\", \"no\")".into());
            p.post_commands = Some("setenv('B01_PO', 'in-post')\nsetenv('B01_PR', 'no')".into());
            p.pre_test_commands = Some("setenv('B01_PR', 'in-pre')".into());
        }
        let nt = r.range(1, 4);
        let bad = r.chance(1, 3).then(|| r.below(nt));
        let mut names: Vec<String> = (0..nt).map(|k| format!("{}{k}", r.pick(&["unit", "lint", "z", "A"]))).collect();
        names.sort();
        for (k, t) in names.iter().enumerate() {
            let mut c = format!("echo test.{t} {{root}}{} >> \"$B01_LOG\"", if sees { " $B01_C $B01_PO $B01_PR" } else { "" });
            if Some(k) == bad {
                c.push_str("; exit 7");
            }
            p.tests.insert(t.clone(), c);
        }
        if fails_at.is_none() && !skip_tests {
            for (k, t) in names.iter().enumerate() {
                want_log.push(format!("test.{t} {}{}", install_dir.display(), if sees { " in-commands in-post in-pre" } else { "" }));
                if Some(k) == bad {
                    fails_at = Some(6);
                    break;
                }
            }
        }
    }
    if r.chance(1, 14) {
        // the place to install into is taken by a file
        let q = install_dir.parent().unwrap();
        std::fs::create_dir_all(q).unwrap();
        if !install_dir.exists() {
            std::fs::write(&install_dir, "in the way").unwrap();
            fails_at = Some(0);
            want_log.clear();
        }
    }
    let mut request = match variant {
        Some(v) => BuildRequest::for_variant(p.clone(), None, src.clone(), v, p.variants[v].clone()),
        None => BuildRequest::new(p, None, src.clone()),
    };
    request.install_path = install_path;
    request.options = BuildOptions { skip_tests, env_vars: request_env, ..Default::default() };
    let failed_source = fails_at == Some(5) && kind == 0 && !src.exists();
    Case {
        label: format!("kind {kind} variant {} slow {slow} fails {fails_at:?} skip {skip_tests} tests {}", variant.is_some(), request.package.tests.len()),
        install_dir: Some(install_dir),
        log,
        want_log,
        want_install: (fails_at.is_none() || fails_at == Some(6)).then_some(want_install),
        source_before: if failed_source { Tree::new() } else { tree(&src) },
        slow,
        want_env: if fails_at == Some(0) { BTreeMap::new() } else { want_env },
        marker: (fails_at.is_some_and(|f| f == 2 || f == 5) && kind != 0 && !unreadable).then_some(marker),
        fails_at,
        request,
    }
}

fn log_of(p: &Path) -> Vec<String> {
    std::fs::read_to_string(p).unwrap_or_default().lines().map(|l| l.trim_end().to_string()).collect()
}

/// the trace specification of one build's events
fn judge_events(rec: &mut Rec, ev: &[BuildEvent], case: &Case, cancelled: bool, success: bool) {
    let trace: Vec<String> = ev
        .iter()
        .filter(|e| !matches!(e.kind, BuildEventKind::StepOutput | BuildEventKind::StepError))
        .map(|e| format!("{:?}{}{}", e.kind, e.step.as_ref().map(|s| format!("({s:?})")).unwrap_or_default(), e.success.map(|s| format!("={s}")).unwrap_or_default()))
        .collect();
    let mut want = vec!["BuildStarted".to_string()];
    for (k, s) in STEPS.iter().enumerate() {
        want.push(format!("StepStarted({s:?})"));
        let bad = case.fails_at == Some(k);
        want.push(format!("StepFinished({s:?})={}", !bad));
        if bad {
            break;
        }
    }
    let full = want.clone();
    want.push(format!("BuildFinished={}", case.fails_at.is_none()));
    if cancelled && !success_trace(&trace, &want) {
        let last = trace.last().cloned().unwrap_or_default();
        rec.check("a cancelled build reports one end, and it is not a success", last == "BuildFinished=false" && trace.iter().filter(|t| t.starts_with("BuildFinished")).count() == 1, || {
            json!({"case": case.label, "trace": trace})
        });
        let body = &trace[..trace.len().saturating_sub(1)];
        rec.check("a cancelled build's steps are those of the build, up to where it stopped", full.starts_with(body), || json!({"case": case.label, "trace": trace, "build": full}));
        rec.count(format!("cancelled after {} step events", body.len()));
    } else {
        rec.check("a build reports its steps in order, stops at the first failure, and ends once", trace == want, || json!({"case": case.label, "got": trace, "want": want}));
        if !cancelled {
            rec.check("the reported result is the outcome of the steps", success == case.fails_at.is_none(), || json!({"case": case.label, "success": success}));
        }
    }
    // output belongs to the step that is running
    let mut cur: Option<String> = None;
    let mut misplaced = vec![];
    let mut ended = false;
    for e in ev {
        let s = e.step.as_ref().map(|s| format!("{s:?}"));
        match e.kind {
            BuildEventKind::StepStarted => cur = s,
            BuildEventKind::StepFinished => cur = None,
            BuildEventKind::BuildFinished => ended = true,
            BuildEventKind::StepOutput | BuildEventKind::StepError => {
                if s != cur && !(ended && cancelled) {
                    misplaced.push(format!("{:?} {:?} while {:?}", e.kind, e.step, cur));
                }
            }
            _ => {}
        }
    }
    rec.check("output is reported under the step that produced it", misplaced.is_empty(), || json!({"case": case.label, "misplaced": misplaced.iter().take(4).collect::<Vec<_>>()}));
    rec.seen.push(format!("{} {trace:?}", case.label));
}
fn success_trace(t: &[String], want: &[String]) -> bool {
    t == want
}

fn judge_done(rec: &mut Rec, case: &Case, res: &BuildResult, keep: bool) {
    let d = |x: Value| json!({"case": case.label, "errors": res.errors.chars().take(300).collect::<String>(), "detail": x});
    let got = log_of(&case.log);
    rec.check("a build runs exactly the commands its steps call for", got == case.want_log, || d(json!({"got": got, "want": case.want_log})));
    if let Some(want) = &case.want_install {
        let got = plain(tree(case.install_dir.as_ref().unwrap()));
        rec.check("what is installed is the payload", got == *want, || d(delta(&got, want)));
    }
    if case.fails_at.is_none() {
        if let Ok(t) = std::fs::read_to_string(format!("{}.tmp", case.log.display())) {
            rec.check("temporary files stay exactly when artifacts are kept", Path::new(t.trim()).exists() == keep, || d(json!({"keep": keep, "file": t})));
        }
        rec.check("a successful build names its install directory", Some(&res.artifacts.install_dir) == case.install_dir.as_ref(), || d(json!(res.artifacts.install_dir)));
    } else {
        rec.check("a failed build says why", !res.errors.trim().is_empty(), || d(Value::Null));
        if let Some(mk) = &case.marker {
            rec.check("a failed build carries the error output of the failing command", res.errors.contains(mk), || d(json!(mk)));
        }
    }
    let src = &case.request.source_dir;
    if !case.source_before.is_empty() && case.fails_at != Some(0) {
        let mut now = tree(src);
        if case.install_dir.as_ref().unwrap().starts_with(src) {
            now.retain(|k, _| k != "pkgs_out" && !k.starts_with("pkgs_out/"));
        }
        let mut was = case.source_before.clone();
        was.retain(|k, _| k != "pkgs_out" && !k.starts_with("pkgs_out/"));
        rec.check("a build leaves its source as it was", now == was, || d(delta(&now, &was)));
    }
    if !case.want_env.is_empty() {
        let text = std::fs::read_to_string(format!("{}.env", case.log.display())).unwrap_or_default();
        let got: BTreeMap<String, String> = text.lines().filter_map(|l| l.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let bad: Vec<_> = case.want_env.iter().filter(|(k, v)| got.get(*k) != Some(v)).map(|(k, v)| format!("{k}: want {v:?} got {:?}", got.get(k))).collect();
        rec.check("a build script sees the build's variables and the overrides", bad.is_empty(), || d(json!(bad)));
    }
}

fn b01_scenario(mut rng: Rng, i: usize) -> Rec {
    let r = &mut rng;
    let mut rec = Rec::default();
    let top = util::fresh("b01");
    let build_dir = top.join("bd");
    if r.chance(1, 8) {
        std::fs::create_dir_all(&build_dir).unwrap();
    }
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let limit = r.range(1, 4);
    let keep = r.chance(1, 2);
    let config_env: HashMap<String, String> = HashMap::from([("B01_CONF".into(), format!("c {i}")), ("B01_BOTH".into(), "config".into())]);
    let config = BuildConfig {
        build_dir: build_dir.clone(),
        temp_dir: top.join("tmp"),
        max_concurrent_builds: limit,
        keep_artifacts: keep,
        build_env_vars: config_env.clone(),
        event_sender: Some(tx),
        ..Default::default()
    };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(r.range(1, 3)).enable_all().build().unwrap();
    let mut mgr = BuildManager::with_config(config);
    let mut active: Vec<(String, Case)> = vec![];
    let (mut started, mut ok, mut bad) = (0usize, 0usize, 0usize);
    let mut events: HashMap<String, Vec<BuildEvent>> = HashMap::new();
    let mut ended: Vec<(String, Case, bool, bool)> = vec![]; // id, case, cancelled, success
    let mut cancelled_at: Vec<(PathBuf, usize)> = vec![];
    let mut spent: Vec<u64> = vec![];
    let cancels = i % 3 == 0;
    let ops = r.range(4, 9);
    for op in 0..ops + limit {
        let draining = op >= ops;
        let what = if draining { 1 } else { r.below(6) };
        match what {
            0 | 2 | 5 => {
                let case = gen_case(r, &top, &build_dir, op, &config_env, cancels);
                let res = rt.block_on(mgr.start_build(case.request.clone()));
                if active.len() >= limit {
                    rec.check("no more builds run than the limit allows", res.is_err(), || json!({"limit": limit, "active": active.len()}));
                    std::thread::sleep(Duration::from_millis(20));
                    rec.check("a refused build does nothing", !case.log.exists(), || json!(case.label));
                    rec.count("refused at the limit");
                    if let Ok(ids) = res {
                        active.push((ids[0].clone(), case));
                        started += 1;
                    }
                } else {
                    rec.check("a build within the limit is started", res.is_ok(), || json!({"case": case.label, "error": format!("{:?}", res)}));
                    if let Ok(ids) = res {
                        rec.check("a request starts one build under an id of its own", ids.len() == 1 && active.iter().all(|(x, _)| *x != ids[0]) && ended.iter().all(|e| e.0 != ids[0]), || json!(ids));
                        active.push((ids[0].clone(), case));
                        started += 1;
                    }
                }
            }
            1 if !active.is_empty() => {
                let (id, case) = active.remove(r.below(active.len()));
                if let Ok(res) = rt.block_on(mgr.wait_for_build(&id)) {
                    rec.check("the result belongs to the build that was asked for", res.build_id == id, || json!([res.build_id, id]));
                    judge_done(&mut rec, &case, &res, keep);
                    spent.push(res.duration_ms);
                    if res.success {
                        ok += 1
                    } else {
                        bad += 1
                    }
                    rec.count(format!("finished: fails at {:?}", case.fails_at));
                    rec.check("a build that has been collected is gone", mgr.get_build_status(&id).is_none() && rt.block_on(mgr.wait_for_build(&id)).is_err(), || json!(case.label));
                    ended.push((id, case, false, res.success));
                } else {
                    rec.check("waiting for a started build gives its result", false, || json!(case.label));
                }
            }
            3 if !active.is_empty() => {
                let k = r.below(active.len());
                if !active[k].1.slow && !r.chance(1, 4) {
                    continue;
                }
                let (id, case) = active.remove(k);
                std::thread::sleep(Duration::from_millis(*r.pick(&[0, 1, 5, 30, 120, 300, 500])));
                let res = rt.block_on(mgr.cancel_build(&id));
                rec.check("a running build can be cancelled", res.is_ok(), || json!({"case": case.label, "error": format!("{res:?}")}));
                bad += 1;
                while let Ok(e) = rx.try_recv() {
                    events.entry(e.build_id.clone()).or_default().push(e);
                }
                rec.check("when cancel returns the build has reported its end", events.get(&id).is_some_and(|v| v.iter().any(|e| e.kind == BuildEventKind::BuildFinished)), || json!(case.label));
                std::thread::sleep(Duration::from_millis(250));
                cancelled_at.push((case.log.clone(), log_of(&case.log).len()));
                rec.check("a cancelled build is gone", mgr.get_build_status(&id).is_none() && rt.block_on(mgr.wait_for_build(&id)).is_err(), || json!(case.label));
                ended.push((id, case, true, false));
                rec.count("cancelled");
            }
            4 => {
                let id = format!("no-such-{}", r.below(9));
                let (a, b) = (rt.block_on(mgr.wait_for_build(&id)).is_err(), rt.block_on(mgr.cancel_build(&id)).is_err());
                rec.check("an unknown build is an error", a && b && mgr.get_build_status(&id).is_none(), || json!([a, b]));
                if r.chance(1, 3) {
                    let mut case = gen_case(r, &top, &build_dir, 100 + op, &config_env, false);
                    case.request.package.variants = vec![vec!["python-2".into()], vec!["python-3".into()]];
                    case.request.variant_index = None;
                    let res = rt.block_on(mgr.start_build(case.request.clone()));
                    rec.check("a package with variants is not built without choosing one", res.is_err() && !case.log.exists(), || json!(format!("{res:?}")));
                }
            }
            _ => {}
        }
        let s = mgr.get_stats().clone();
        let got = (s.builds_started, s.builds_successful, s.builds_failed, s.builds_running);
        let want = (started, ok, bad, active.len());
        rec.check("started builds are the successful, the failed and the running ones", got == want, || json!({"got": got, "want": want}));
        let mut ids = mgr.get_active_builds();
        ids.sort();
        let mut have: Vec<String> = active.iter().map(|a| a.0.clone()).collect();
        have.sort();
        rec.check("the active builds are those not yet collected", ids == have, || json!([ids, have]));
    }
    let s = mgr.get_stats().clone();
    if active.is_empty() && started > 0 && started == spent.len() {
        rec.check("the total and average build times are those of the builds", s.total_build_time_ms == spent.iter().sum::<u64>() && (s.avg_build_time_ms - s.total_build_time_ms as f64 / started as f64).abs() < 0.001, || json!({"times": spent, "total": s.total_build_time_ms, "average": s.avg_build_time_ms}));
    }
    // whatever is left
    while let Some((id, case)) = active.pop() {
        if let Ok(res) = rt.block_on(mgr.wait_for_build(&id)) {
            judge_done(&mut rec, &case, &res, keep);
            ended.push((id, case, false, res.success));
        }
    }
    if !cancelled_at.is_empty() {
        std::thread::sleep(Duration::from_millis(400));
        for (p, n) in cancelled_at {
            let now = log_of(&p).len();
            rec.check("nothing of a cancelled build happens after cancel returned", now == n, || json!({"log": p, "lines at cancel": n, "lines later": now}));
        }
    }
    drop(rt);
    while let Ok(e) = rx.try_recv() {
        events.entry(e.build_id.clone()).or_default().push(e);
    }
    rec.check("every event belongs to a started build", events.keys().all(|k| ended.iter().any(|e| e.0 == *k)), || json!(events.keys().collect::<Vec<_>>()));
    for (id, case, cancelled, success) in &ended {
        let ev = events.remove(id).unwrap_or_default();
        rec.count("events observed");
        judge_events(&mut rec, &ev, case, *cancelled, *success);
    }
    util::rm(&top);
    rec
}

pub fn b01(m: &mut Mon) {
    m.describe(
        "the recorded events of every build form one legal run (started, steps in order up to the first failure, one end) whose outcome, commands, installed files and environment are those of the reference; cancelled builds stop; the manager's numbers add up",
        &[
            "build kinds observed: copy-only, build_command, build.sh, rezbuild.py; the other build systems need tools or networks that are not here",
            "cancellation is required to stop the build's own command, not processes that command detached",
        ],
        61500,
    );
    // two variants never share a build directory
    let mut r = m.rng(77);
    let mut seen: HashMap<String, Vec<String>> = HashMap::new();
    for _ in 0..m.size(20_000, 4) {
        let v: Vec<String> = (0..r.range(0, 4))
            .map(|_| format!("{}{}{}", r.pick(&["a", "b", "ab", "python", "platform"]), r.pick(&["", "-1", "-1+", "-1.0", "-1<2", "==1", "-1|2", "-linux"]), r.pick(&["", "", "+", ".0"])))
            .collect();
        let mut q = BuildRequest::new(Package::new("p".into()), None, PathBuf::from("."));
        q.variant_index = Some(r.below(3));
        q.variant_requires = Some(v.clone());
        let h = q.variant_hash();
        m.check("a variant has a directory name", h.as_deref().is_some_and(|h| !h.is_empty() && !h.contains('/')), || json!({"variant": v, "hash": h}));
        let Some(h) = h else { continue };
        m.check("the same variant has the same directory", q.variant_hash().as_ref() == Some(&h), || json!(v));
        let mut set = v.clone();
        set.sort();
        let other = seen.entry(h.clone()).or_insert_with(|| set.clone());
        m.check("different variants have different directories", *other == set, || json!({"one": set, "other": other, "hash": h}));
    }
    m.count("variant directories", seen.len() as u64);
    let n = m.size(200, 6);
    parallel(m, n, 8, b01_scenario);
}

// ---------------------------------------------------------------------------------------------- B02

const MKARCH: &str = r#"
import json, sys, zipfile, tarfile, io, hashlib
specs = json.load(open(sys.argv[1]))
out = []
for s in specs:
    path = s["path"]
    spans = []
    if s["format"] == "zip":
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED if s["deflate"] else zipfile.ZIP_STORED) as z:
            for e in s["entries"]:
                zi = zipfile.ZipInfo(e["name"] + ("/" if e["kind"] == "dir" else ""))
                zi.create_system = 3
                zi.compress_type = z.compression
                zi.external_attr = ((0o40000 if e["kind"] == "dir" else 0o100000) | e["mode"]) << 16
                z.writestr(zi, "" if e["kind"] == "dir" else e["data"])
            infos = list(z.infolist())
        raw = open(path, "rb").read()
        for zi in infos:
            if zi.compress_size:
                o = zi.header_offset
                n = int.from_bytes(raw[o+26:o+28], "little"); x = int.from_bytes(raw[o+28:o+30], "little")
                spans.append([o + 30 + n + x, zi.compress_size])
    else:
        with tarfile.open(path, "w:gz", format=tarfile.PAX_FORMAT) as t:
            for e in s["entries"]:
                ti = tarfile.TarInfo(e["name"])
                ti.mode = e["mode"]
                if e["kind"] == "dir": ti.type = tarfile.DIRTYPE; t.addfile(ti)
                elif e["kind"] == "link": ti.type = tarfile.SYMTYPE; ti.linkname = e["data"]; t.addfile(ti)
                elif e["kind"] == "hard": ti.type = tarfile.LNKTYPE; ti.linkname = e["data"]; t.addfile(ti)
                else:
                    d = e["data"].encode(); ti.size = len(d); t.addfile(ti, io.BytesIO(d))
        n = len(open(path, "rb").read())
        spans.append([40, max(1, n - 40)])
    if s["damage"] == "flip" and spans:
        raw = bytearray(open(path, "rb").read())
        a, b = spans[s["pos"] % len(spans)]
        raw[a + (s["pos"] * 7919) % b] ^= 1 << (s["pos"] % 8)
        good = hashlib.sha256(open(path, "rb").read()).hexdigest()
        open(path, "wb").write(raw)
    elif s["damage"] == "cut":
        raw = open(path, "rb").read()
        good = hashlib.sha256(raw).hexdigest()
        open(path, "wb").write(raw[: max(0, len(raw) - 1 - s["pos"] % len(raw))])
    else:
        good = hashlib.sha256(open(path, "rb").read()).hexdigest()
    out.append(good)
json.dump(out, open(sys.argv[1] + ".out", "w"))
"#;

struct Arch {
    path: PathBuf,
    spec: Value,
    /// payload below each possible prefix: what a faithful install looks like
    tree: Tree,
    hostile: bool,
    damage: &'static str,
    sha: String,
    prefixes: Vec<String>,
}

fn gen_arch(r: &mut Rng, top: &Path, outside: &Path, k: usize) -> Arch {
    let zip = r.chance(1, 2);
    let path = top.join(format!("arch{k}{}", if zip { *r.pick(&[".zip", ".ZIP"]) } else { *r.pick(&[".tar.gz", ".tgz"]) }));
    let mut t = Tree::new();
    let mut entries = vec![];
    let put = |t: &mut Tree, rel: &str, v: String| {
        t.insert(rel.into(), v);
        let mut p = Path::new(rel);
        while let Some(q) = p.parent() {
            if !q.as_os_str().is_empty() {
                t.entry(q.to_string_lossy().to_string()).or_insert("dir".into());
            }
            p = q;
        }
    };
    let roots = ["", "payload", "payload/inner", "dist-1.0", "ünï"];
    for i in 0..r.range(1, 7) {
        let root = *r.pick(&roots);
        let sub = *r.pick(&["", "bin", "lib/x", "share"]);
        let rel = [root, sub, &format!("f{i}")].iter().filter(|s| !s.is_empty()).cloned().collect::<Vec<_>>().join("/");
        let mode = *r.pick(&[0o644u32, 0o755, 0o600, 0o500, 0o444, 0o711]);
        let data = match r.below(8) {
            0 => String::new(),
            1 if r.chance(1, 4) => {
                // beyond any read buffer, and not compressible to less
                let mut x = r.below(1 << 30) as u64 | 1;
                (0..r.range(1_000_000, 3_000_000))
                    .map(|_| {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        (b'!' + ((x >> 33) % 90) as u8) as char
                    })
                    .collect()
            }
            _ => format!("{}{}", r.below(100_000), "ab".repeat(*r.pick(&[0usize, 3, 90, 40_000]))),
        };
        entries.push(json!({"kind": "file", "name": rel, "mode": mode, "data": data}));
        put(&mut t, &rel, format!("file {mode:o} {data}"));
        if !zip && r.chance(1, 4) {
            let ln = format!("{rel}.ln");
            entries.push(json!({"kind": "link", "name": ln, "mode": 0o777, "data": format!("f{i}")}));
            put(&mut t, &ln, format!("-> f{i}"));
        }
        if !zip && r.chance(1, 8) {
            let ln = format!("{rel}.hard");
            entries.push(json!({"kind": "hard", "name": ln, "mode": mode, "data": rel}));
            put(&mut t, &ln, format!("file {mode:o} {data}"));
        }
    }
    if !zip && r.chance(1, 3) {
        // links to directories, and to nothing, stay links
        let dirs: Vec<String> = t.iter().filter(|(_, v)| *v == "dir").map(|(k, _)| k.clone()).collect();
        for k in 0..r.range(1, 3) {
            let at = *r.pick(&["", "payload/", "payload/deep/", "dist-1.0/"]);
            let to = if dirs.is_empty() || r.chance(1, 5) { "nothing".to_string() } else { format!("{}{}", "../".repeat(at.matches('/').count()), r.pick(&dirs)) };
            let ln = format!("{at}dirlink{k}");
            entries.push(json!({"kind": "link", "name": ln, "mode": 0o777, "data": to}));
            put(&mut t, &ln, format!("-> {to}"));
        }
    }
    if r.chance(1, 3) {
        entries.push(json!({"kind": "dir", "name": "payload/void", "mode": 0o755, "data": ""}));
        put(&mut t, "payload/void", "dir".into());
    }
    let hostile = r.chance(1, 4);
    if hostile {
        let o = outside.to_string_lossy();
        let base = o.trim_start_matches('/').to_string();
        for _ in 0..r.range(1, 2) {
            let depth = "../".repeat(r.range(1, 12));
            match r.below(if zip { 2 } else { 5 }) {
                0 => entries.push(json!({"kind": "file", "name": format!("{depth}{base}/evil"), "mode": 0o644, "data": "evil"})),
                1 => entries.push(json!({"kind": "file", "name": format!("{o}/evil"), "mode": 0o644, "data": "evil"})),
                2 => {
                    entries.push(json!({"kind": "link", "name": "trap", "mode": 0o777, "data": o}));
                    entries.push(json!({"kind": "file", "name": "trap/evil", "mode": 0o644, "data": "evil"}));
                }
                3 => {
                    entries.push(json!({"kind": "link", "name": "trap2", "mode": 0o777, "data": format!("{o}/keep")}));
                    entries.push(json!({"kind": "file", "name": "trap2", "mode": 0o644, "data": "evil"}));
                }
                _ => entries.push(json!({"kind": "hard", "name": "trap3", "mode": 0o644, "data": format!("{o}/keep")})),
            }
        }
    }
    // with no content at all there is no content to damage
    let void = !t.values().any(|v| v.starts_with("file ") && v.splitn(3, ' ').nth(2).is_some_and(|d| !d.is_empty()));
    let damage = if hostile || void { "none" } else { *r.pick(&["none", "none", "none", "flip", "cut"]) };
    let pos = r.below(1_000_000);
    let mut prefixes: Vec<String> = roots[1..].iter().filter(|p| t.contains_key(**p)).map(|s| s.to_string()).collect();
    prefixes.push(String::new());
    Arch {
        spec: json!({"path": path, "format": if zip {"zip"} else {"tgz"}, "deflate": r.chance(2, 3), "entries": entries, "damage": damage, "pos": pos}),
        path,
        tree: t,
        hostile,
        damage,
        sha: String::new(),
        prefixes,
    }
}

fn serve(files: Vec<(String, Vec<u8>)>) -> (u16, std::thread::JoinHandle<()>, std::sync::Arc<std::sync::atomic::AtomicBool>) {
    use std::io::{Read as _, Write as _};
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    l.set_nonblocking(true).unwrap();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let st = stop.clone();
    let h = std::thread::spawn(move || {
        while !st.load(std::sync::atomic::Ordering::Relaxed) {
            let Ok((mut s, _)) = l.accept() else {
                std::thread::sleep(Duration::from_millis(2));
                continue;
            };
            let _ = s.set_nonblocking(false);
            let _ = s.set_read_timeout(Some(Duration::from_secs(5)));
            let mut buf = vec![];
            let mut b = [0u8; 1024];
            while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
                match s.read(&mut b) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => buf.extend_from_slice(&b[..n]),
                }
            }
            let line = String::from_utf8_lossy(&buf).lines().next().unwrap_or("").to_string();
            let want = line.split(' ').nth(1).unwrap_or("").to_string();
            match files.iter().find(|f| f.0 == want) {
                Some((p, d)) if !p.contains("/gone/") => {
                    let short = p.contains("/short/");
                    let _ = write!(s, "HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", d.len());
                    let _ = s.write_all(if short { &d[..d.len() / 2] } else { d });
                }
                // an error page that happens to be a valid archive
                Some((_, d)) => {
                    let _ = write!(s, "HTTP/1.1 404 Not Found\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", d.len());
                    let _ = s.write_all(d);
                }
                None => {
                    let _ = write!(s, "HTTP/1.1 500 No\r\nContent-Length: 0\r\nConnection: close\r\n\r\n");
                }
            }
        }
    });
    (port, h, stop)
}

fn b02_scenario(mut rng: Rng, _i: usize) -> Rec {
    let r = &mut rng;
    let mut rec = Rec::default();
    let top = util::fresh("b02");
    let outside = top.join("outside");
    util::write(outside.join("keep"), "precious");
    util::write(outside.join("dir/f"), "precious too");
    let n = 6;
    let mut archs: Vec<Arch> = (0..n).map(|k| gen_arch(r, &top, &outside, k)).collect();
    let spec = top.join("spec.json");
    util::write(&spec, &serde_json::to_string(&archs.iter().map(|a| a.spec.clone()).collect::<Vec<_>>()).unwrap());
    util::write(top.join("mk.py"), MKARCH);
    let o = Command::new("python3").arg(top.join("mk.py")).arg(&spec).output().unwrap();
    assert!(o.status.success(), "archive helper: {}", String::from_utf8_lossy(&o.stderr));
    let shas: Vec<String> = serde_json::from_str(&std::fs::read_to_string(top.join("spec.json.out")).unwrap()).unwrap();
    for (a, s) in archs.iter_mut().zip(shas) {
        a.sha = s;
    }
    let files: Vec<(String, Vec<u8>)> = archs
        .iter()
        .flat_map(|a| {
            let d = std::fs::read(&a.path).unwrap();
            let nm = a.path.file_name().unwrap().to_string_lossy().to_string();
            [format!("/ok/{nm}"), format!("/gone/{nm}"), format!("/short/{nm}")].map(|p| (p, d.clone()))
        })
        .collect();
    let (port, h, stop) = serve(files);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let build_dir = top.join("bd");
    let mut mgr = BuildManager::with_config(BuildConfig { build_dir: build_dir.clone(), ..Default::default() });
    let src = top.join("src");
    util::write(src.join("package.py"), "name = 'tool'\n");
    let out_before = tree(&outside);
    for step in 0..10 {
        let a = &archs[r.below(n)];
        // now and then over an earlier install
        let again = step > 0 && r.chance(1, 4);
        let install = top.join(format!("inst{}", if again { r.below(step) } else { step }));
        let before = plain(tree(&install.join("tool/1.0")));
        let mut p = Package::new("tool".into());
        p.version = Some(Version::parse("1.0").unwrap());
        p.build_system = Some("binary_archive".into());
        let mut env: HashMap<String, String> = HashMap::new();
        let mut must_fail = false;
        let mut why = vec![];
        let via = r.below(6);
        let nm = a.path.file_name().unwrap().to_string_lossy().to_string();
        match via {
            0 | 1 => {
                env.insert("REZ_BINARY_ARCHIVE_URL".into(), format!("http://127.0.0.1:{port}/ok/{nm}"));
            }
            2 if r.chance(1, 2) => {
                let kind = *r.pick(&["gone", "short", "none"]);
                env.insert("REZ_BINARY_ARCHIVE_URL".into(), format!("http://127.0.0.1:{port}/{kind}/{nm}"));
                must_fail = true;
                why.push(kind);
            }
            3 if r.chance(1, 3) => {
                env.insert("REZ_BINARY_ARCHIVE_ARTIFACT".into(), top.join("missing.zip").to_string_lossy().to_string());
                if r.chance(1, 2) {
                    env.insert("REZ_BINARY_ARCHIVE_URL".into(), format!("http://127.0.0.1:{port}/ok/{nm}"));
                }
                must_fail = true;
                why.push("missing artifact");
            }
            4 if r.chance(1, 3) => {
                // a name that says it is something else
                let odd = top.join(format!("s{step}{}", r.pick(&[".tar", ".zipx", "tar.gz", ".gz", ".tgz.bak", "", "zip"])));
                std::fs::copy(&a.path, &odd).unwrap();
                env.insert("REZ_BINARY_ARCHIVE_ARTIFACT".into(), odd.to_string_lossy().to_string());
                must_fail = true;
                why.push("unknown format");
            }
            _ => {
                if r.chance(1, 6) {
                    // the artifact at hand is the one that counts
                    env.insert("REZ_BINARY_ARCHIVE_URL".into(), format!("http://127.0.0.1:{port}/none/{nm}"));
                }
                env.insert("REZ_BINARY_ARCHIVE_ARTIFACT".into(), a.path.to_string_lossy().to_string());
            }
        }
        match r.below(5) {
            0 | 1 => {
                // the checksum of the intact archive
                let s = match r.below(3) {
                    0 => a.sha.to_uppercase(),
                    1 => format!(" {}\n", a.sha),
                    _ => a.sha.clone(),
                };
                env.insert("REZ_BINARY_ARCHIVE_SHA256".into(), s);
                if a.damage != "none" {
                    must_fail = true;
                    why.push("damaged, checksum given");
                }
            }
            2 if r.chance(1, 2) => {
                let mut s = a.sha.clone().into_bytes();
                match r.below(4) {
                    0 => {
                        let k = r.below(s.len());
                        s[k] = if s[k] == b'0' { b'1' } else { b'0' };
                    }
                    1 => {
                        s.pop();
                    }
                    2 => s.truncate(8),
                    _ => s.extend_from_slice(b"00"),
                }
                env.insert("REZ_BINARY_ARCHIVE_SHA256".into(), String::from_utf8(s).unwrap());
                must_fail = true;
                why.push("wrong checksum");
            }
            _ => {}
        }
        let mut prefix = r.pick(&a.prefixes).clone();
        if r.chance(1, 5) {
            prefix = r.pick(&["nowhere", "../extract/../../../../outside", "..", "../..", "@", "payload/../../.."]).to_string();
            if prefix == "@" {
                prefix = outside.to_string_lossy().to_string();
            }
            must_fail = true;
            why.push("bad prefix");
        }
        if !prefix.is_empty() {
            env.insert("REZ_BINARY_ARCHIVE_PAYLOAD_PREFIX".into(), prefix.clone());
        }
        let mut req = BuildRequest::new(p, None, src.clone());
        req.install_path = Some(install.clone());
        req.options.env_vars = env.clone();
        let desc = json!({"archive": nm, "damage": a.damage, "hostile": a.hostile, "prefix": prefix, "must fail": why, "env": env});
        let res = rt.block_on(async {
            let ids = mgr.start_build(req).await?;
            mgr.wait_for_build(&ids[0]).await
        });
        let Ok(res) = res else {
            rec.check("an archive build gives a result", false, || json!({"case": desc, "error": format!("{:?}", res)}));
            continue;
        };
        let dir = install.join("tool/1.0");
        let got = plain(tree(&dir));
        let d = || json!({"case": desc, "success": res.success, "errors": res.errors.chars().take(200).collect::<String>(), "installed": got.iter().take(12).map(|(k, v)| format!("{k}: {}", v.chars().take(40).collect::<String>())).collect::<Vec<_>>()});
        let want: Tree = if prefix.is_empty() {
            a.tree.clone()
        } else {
            a.tree.iter().filter_map(|(k, v)| k.strip_prefix(&format!("{prefix}/")).map(|x| (x.to_string(), v.clone()))).collect()
        };
        rec.check("nothing outside the package changes", tree(&outside) == out_before, || json!({"case": desc, "now": delta(&tree(&outside), &out_before)}));
        if must_fail {
            rec.check("an archive that cannot be trusted or found is refused", !res.success, d);
        } else if !a.hostile && a.damage == "none" {
            rec.check("a sound archive is installed", res.success, d);
        }
        if res.success && !must_fail {
            if again && !before.is_empty() {
                rec.check("an install over an earlier one has every file of the new payload", want.iter().all(|(k, v)| got.get(k) == Some(v)), || json!({"case": desc, "delta": delta(&got, &want)}));
                if !a.hostile {
                    // a directory that the payload brings is the payload's
                    let mixed: Vec<&String> = got.keys().filter(|k| !want.contains_key(*k) && k.contains('/') && want.get(k.split('/').next().unwrap()).is_some_and(|v| v.starts_with("dir"))).collect();
                    rec.check("a directory of the payload holds nothing of an earlier install", mixed.is_empty(), || json!({"case": desc, "left over": mixed}));
                }
                rec.count("installs over an earlier one");
            } else if a.hostile {
                rec.check("the honest entries of an archive are installed unchanged", want.iter().all(|(k, v)| got.get(k) == Some(v)), || json!({"case": desc, "delta": delta(&got, &want)}));
                rec.check("an archive brings in nothing from outside", !got.values().any(|v| v.contains("precious")), d);
            } else {
                rec.check("the installed files are the archive's payload: content, permissions and links", got == want, || json!({"case": desc, "delta": delta(&got, &want)}));
            }
            // artifacts of the installed package
            if r.chance(1, 2) && !a.hostile && !got.keys().any(|k| k.contains("dirlink")) {
                artifacts(r, &mut rec, &rt, &dir, &got);
            }
        }
        if !res.success && again {
            rec.check("a refused archive leaves an earlier install as it was", got == before, || json!({"case": desc, "delta": delta(&got, &before)}));
        } else if !res.success {
            let files: Vec<_> = got.iter().filter(|(_, v)| !v.starts_with("dir")).collect();
            rec.check("a refused archive leaves nothing installed", files.is_empty(), d);
        }
        rec.count(format!("{}{}{}", if res.success { "installed" } else { "refused" }, if a.hostile { " hostile" } else { "" }, if a.damage != "none" { " damaged" } else { "" }));
        rec.seen.push(format!("{} {} {} {why:?} {}", a.spec["format"], a.damage, a.hostile, got.len()));
    }
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    let _ = h.join();
    let _ = Command::new("chmod").arg("-R").arg("u+rwX").arg(&top).status();
    util::rm(&top);
    rec
}

fn artifacts(r: &mut Rng, rec: &mut Rec, rt: &tokio::runtime::Runtime, dir: &Path, got: &Tree) {
    let mut a = BuildArtifacts::new(dir.to_path_buf());
    if rt.block_on(a.scan_install_dir()).is_err() {
        rec.check("the installed files can be listed", got.values().any(|v| v.starts_with("->")), || json!(dir));
        return;
    }
    let mut files: Vec<(String, u64)> = a.files.iter().map(|f| (f.path.to_string_lossy().to_string(), f.size_bytes)).collect();
    files.sort();
    let mut want: Vec<(String, u64)> = got
        .iter()
        .filter(|(_, v)| !v.starts_with("dir"))
        .map(|(k, _)| (k.clone(), std::fs::metadata(dir.join(k)).map(|m| m.len()).unwrap_or(0)))
        .collect();
    want.sort();
    rec.check("the artifact list is the installed files", files == want, || json!({"got": files, "want": want}));
    rec.check("the artifact size is the sum of the files", a.get_total_size() == want.iter().map(|w| w.1).sum::<u64>() && a.get_file_count() == want.len() && a.get_summary().total_files == want.len(), || json!(a.get_total_size()));
    let v = rt.block_on(a.validate()).unwrap();
    rec.check("unchanged artifacts are valid", v.is_valid && v.files_checked == want.len(), || json!(v.errors));
    let plain_files: Vec<&String> = got.iter().filter(|(k, v)| v.starts_with("file") && !got.values().any(|l| l.starts_with("->") && k.ends_with(&l[3..])) && !k.ends_with(".hard")).map(|(k, _)| k).collect();
    if plain_files.is_empty() {
        return;
    }
    let victim = dir.join(r.pick(&plain_files));
    let old = std::fs::read(&victim).unwrap_or_default();
    let mode = std::fs::metadata(&victim).unwrap().permissions();
    let _ = std::fs::set_permissions(&victim, std::fs::Permissions::from_mode(0o644));
    let how = r.below(3);
    match how {
        0 => std::fs::remove_file(&victim).unwrap(),
        1 => {
            let mut b = old.clone();
            let k = r.below(b.len().max(1));
            if b.is_empty() {
                b.push(1)
            } else {
                b[k] ^= 1;
            }
            std::fs::write(&victim, b).unwrap();
        }
        _ => std::fs::write(&victim, [&old[..], b"+"].concat()).unwrap(),
    }
    let v = rt.block_on(a.validate()).unwrap();
    rec.check("a changed or missing artifact is not valid", !v.is_valid, || json!({"how": how, "file": victim, "errors": v.errors}));
    rec.check("the report names the file", v.errors.iter().any(|e| e.contains(&*victim.file_name().unwrap().to_string_lossy())), || json!({"file": victim, "errors": v.errors}));
    std::fs::write(&victim, &old).unwrap();
    let _ = std::fs::set_permissions(&victim, mode);
    let v = rt.block_on(a.validate()).unwrap();
    rec.check("a restored artifact is valid again", v.is_valid, || json!(v.errors));
    rec.count("artifact lists judged");
}

pub fn b02(m: &mut Mon) {
    m.describe(
        "what a binary archive installs is exactly its payload and nothing else anywhere; untrusted, damaged, missing or escaping archives are refused and leave nothing; the artifact list and its validation agree with the files",
        &["zip entries that are links are not exercised", "an install into a directory that already holds files is not judged for leftovers"],
        800,
    );
    let n = m.size(100, 6);
    parallel(m, n, 8, b02_scenario);
}

// ---------------------------------------------------------------------------------------------- L01

fn git(cwd: &Path, cfg: &Path, args: &[&str]) -> (bool, String) {
    let o = Command::new("git")
        .args(args)
        .current_dir(cwd)
        .env("GIT_CONFIG_GLOBAL", cfg)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("GIT_TERMINAL_PROMPT", "0")
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap();
    (o.status.success(), String::from_utf8_lossy(&o.stdout).to_string())
}
fn refs(cwd: &Path, cfg: &Path) -> String {
    git(cwd, cfg, &["for-each-ref", "--format=%(refname) %(objecttype) %(objectname)"]).1
}

/// child: ReleaseManager in a process of its own (it reads the process environment)
pub fn child_relmgr(args: &[String]) -> i32 {
    let mode = match args[0].as_str() {
        "local" => ReleaseMode::Local,
        "dry" => ReleaseMode::DryRun,
        _ => ReleaseMode::Release,
    };
    let mut m = ReleaseManager::new(mode, args[1] == "1", args[2] == "1");
    m.set_skip_vcs_validation(args[3] == "1");
    let msg = (args[5] != "-").then(|| args[5].as_str());
    match m.release(Path::new(&args[4]), msg) {
        Ok(r) => {
            println!("{}", json!({"success": r.success, "errors": r.errors, "install_path": r.install_path, "name": r.package_name, "version": r.version}));
            i32::from(!r.success)
        }
        Err(e) => {
            println!("{}", json!({"success": false, "errors": [e.to_string()]}));
            1
        }
    }
}

fn l01_scenario(mut rng: Rng, _i: usize) -> Rec {
    let r = &mut rng;
    let mut rec = Rec::default();
    let top = util::fresh("l01");
    let cfg = top.join("gitconfig");
    util::write(&cfg, "[user]\n name = t\n email = t@example.com\n[init]\n defaultBranch = main\n[advice]\n detachedHead = false\n[gc]\n auto = 0\n");
    let work = top.join(if r.chance(1, 5) { "my work" } else { "work" });
    std::fs::create_dir_all(&work).unwrap();
    let origin = top.join("origin.git");
    let release = top.join("release");
    let local = top.join("local");
    std::fs::create_dir_all(&release).unwrap();
    std::fs::create_dir_all(&local).unwrap();
    util::write(release.join("other/1.0/package.py"), "name = 'other'\nversion = '1.0'\n");
    let name = r.pick(&["tool", "my_lib", "x2"]).to_string();
    let mut ver = r.pick(&["1.0.0", "2.1", "0.3.1", "1.0.0-beta.1"]).to_string();
    let mut bad_build = r.chance(1, 7);
    let mut bad_test = !bad_build && r.chance(1, 6);
    let kind = r.below(3);
    let nv = if kind == 1 && r.chance(1, 2) { r.range(1, 4) } else { 0 };
    let blog = top.join("built.log");
    for v in 1..=4 {
        util::write(local.join(format!("dep/{v}/package.py")), &format!("name = 'dep'\nversion = '{v}'\n"));
    }
    let variants: Vec<Vec<String>> = (0..nv).map(|v| vec![format!("dep-{}", v + 1)]).collect();
    // the variant whose build breaks when builds break
    let weak = r.below(nv.max(1));
    let write_pkg = |ver: &str, bad_build: bool, bad_test: bool| {
        let mut s = format!("name = '{name}'\nversion = '{ver}'\ndescription = 'd'\n");
        if nv > 0 {
            s.push_str(&format!("variants = {}\n", serde_json::to_string(&variants).unwrap()));
        }
        match kind {
            1 if nv > 0 => s.push_str(&format!(
                "build_command = 'echo v$REZ_BUILD_VARIANT_INDEX >> {}; {} echo built > {{install_path}}/built.txt'\n",
                blog.display(),
                if bad_build { format!("if [ \"$REZ_BUILD_VARIANT_INDEX\" = {weak} ]; then exit 3; fi;") } else { String::new() }
            )),
            0 => s.push_str(if bad_build { "build_command = 'echo broken >&2; exit 3'\n" } else { "build_command = False\n" }),
            1 => s.push_str(if bad_build { "build_command = 'echo half > {install_path}/half; exit 3'\n" } else { "build_command = 'echo built > {install_path}/built.txt'\n" }),
            _ => {}
        }
        if bad_test {
            s.push_str("tests = {'unit': 'exit 4'}\n");
        } else {
            s.push_str("tests = {'unit': 'exit 0'}\n");
        }
        util::write(work.join("package.py"), &s);
        if kind == 2 {
            util::write(
                work.join("build.sh"),
                &format!("if [ \"$1\" = install ]; then cp package.py \"$REZ_BUILD_INSTALL_PATH/\"; echo built > \"$REZ_BUILD_INSTALL_PATH/built.txt\"; {} fi\n", if bad_build { "exit 9;" } else { "" }),
            );
        }
    };
    write_pkg(&ver, bad_build, bad_test);
    util::write(work.join("lib/mod.py"), "x = 1\n");
    util::write(work.join(".gitignore"), ".rez_build\nignored\n");
    util::write(work.join("ignored/x"), "not tracked");
    let g = |args: &[&str]| git(&work, &cfg, args);
    let has_git = !r.chance(1, 15);
    let has_origin = !r.chance(1, 10);
    if has_git {
        g(&["init", "-q"]);
        g(&["add", "-A"]);
        g(&["commit", "-qm", "first"]);
        if has_origin {
            git(&top, &cfg, &["init", "-q", "--bare", "origin.git"]);
            g(&["remote", "add", "origin", &origin.to_string_lossy()]);
            g(&["push", "-q", "-u", "origin", "main"]);
        }
    }
    let env = [
        ("GIT_CONFIG_GLOBAL", cfg.to_string_lossy().to_string()),
        ("GIT_CONFIG_NOSYSTEM", "1".to_string()),
        ("GIT_TERMINAL_PROMPT", "0".to_string()),
        ("REZ_RELEASE_PACKAGES_PATH", release.to_string_lossy().to_string()),
        ("REZ_LOCAL_PACKAGES_PATH", local.to_string_lossy().to_string()),
        ("REZ_PACKAGES_PATH", local.to_string_lossy().to_string()),
        ("REZ_DISABLE_HOME_CONFIG", "1".to_string()),
    ];
    let mut trail: Vec<String> = vec![];
    for step in 0..5 {
        // a history of the source tree between releases
        if has_git {
            match r.below(6) {
                0 => {
                    util::write(work.join("lib/mod.py"), &format!("x = {}\n", r.below(1000)));
                    trail.push("edit".into());
                }
                1 => {
                    util::write(work.join(format!("new{step}.txt")), "n");
                    if r.chance(1, 2) {
                        g(&["add", "-A"]);
                    }
                    trail.push("new file".into());
                }
                2 | 3 => {
                    ver = format!("{}.{}", r.below(3), r.below(3));
                    bad_build = r.chance(1, 8);
                    bad_test = !bad_build && r.chance(1, 7);
                    write_pkg(&ver, bad_build, bad_test);
                    g(&["add", "-A"]);
                    g(&["commit", "-qm", &format!("v{step}")]);
                    trail.push(format!("commit {ver} bad build {bad_build} bad test {bad_test}"));
                }
                4 => {
                    g(&["checkout", "-q", "-f", "HEAD", "--", "."]);
                    g(&["reset", "-q", "--hard"]);
                    g(&["clean", "-qfd"]);
                    trail.push("clean".into());
                }
                _ => {}
            }
        }
        let tag = format!("{name}-{ver}");
        let mut refuses = false;
        if has_git {
            match r.below(10) {
                0 => {
                    g(&["tag", &tag]);
                    trail.push("tagged by hand".into());
                }
                1 if has_origin => {
                    // somebody else released this version from another clone
                    git(&origin, &cfg, &["tag", "-a", &tag, "-m", "theirs", "main"]);
                    trail.push("tagged at origin".into());
                }
                2 if has_origin => {
                    util::write(origin.join("hooks/pre-receive"), "#!/bin/sh\nexit 1\n");
                    std::fs::set_permissions(origin.join("hooks/pre-receive"), std::fs::Permissions::from_mode(0o755)).unwrap();
                    refuses = true;
                    trail.push("origin refuses".into());
                }
                3 => {
                    g(&["tag", &format!("{tag}0")]);
                    g(&["tag", &format!("x{tag}")]);
                }
                _ => {}
            }
        }
        let dirty = has_git && !g(&["status", "--porcelain"]).1.is_empty();
        let tag_local = has_git && g(&["tag", "-l", &tag]).1.lines().any(|l| l == tag);
        let tag_origin = has_git && has_origin && refs(&origin, &cfg).contains(&format!("refs/tags/{tag} "));
        let same_at_origin = tag_origin && tag_local;
        let head = g(&["rev-parse", "HEAD"]).1;
        let before = (refs(&work, &cfg), if has_origin && has_git { refs(&origin, &cfg) } else { String::new() });
        let rel_before = tree(&release);
        let mut src_before = tree(&work);
        let pkgdir = release.join(&name).join(&ver);
        let existed = pkgdir.exists();

        // the command
        let mut a: Vec<String> = vec!["release".into()];
        let (dry, skip, ignore) = (r.chance(1, 5), r.chance(1, 4), r.chance(1, 4));
        if dry {
            a.push("--dry-run".into());
        }
        if skip {
            a.push("--skip-repo-errors".into());
        }
        if ignore {
            a.push("--ignore-existing-tag".into());
        }
        // which variants are asked for, and which are there
        let mut chosen: Option<Vec<usize>> = Some((0..nv).collect());
        if r.chance(1, if nv > 0 { 2 } else { 12 }) {
            let (i, j) = (r.below(nv.max(1)), r.below(nv.max(1)));
            let both = if i == j { vec![i] } else { vec![i, j] };
            let (text, want) = match r.below(10) {
                0 | 1 => (format!("{i}"), Some(vec![i])),
                2 | 3 => (format!("{i},{j}"), Some(both)),
                4 => (format!(" {i} , {j},{i}"), Some(both)),
                5 => (format!(",{i},"), Some(vec![i])),
                6 => (format!("{i},{}", nv + r.below(2)), None),
                7 => (r.pick(&["x", "-1", "0x0", "1.0", "0;1"]).to_string(), None),
                8 => (r.pick(&["", " ", ",", " , "]).to_string(), None),
                _ => (format!("{nv}"), None),
            };
            chosen = if nv > 0 {
                want
            } else {
                // nothing to choose from: only an empty choice is one
                text.trim().is_empty().then(Vec::new)
            };
            a.push(format!("--variants={text}"));
        }
        let _ = std::fs::remove_file(&blog);
        let breaks = match &chosen {
            None => true,
            Some(c) => bad_build && (nv == 0 || c.contains(&weak)),
        };
        let mut msg = format!("Release {tag}");
        match r.below(4) {
            0 => {
                msg = format!("notes {} 'quoted' \"d\" $HOME `x`", r.below(1000));
                a.extend(["-m".into(), msg.clone()]);
            }
            1 => {
                msg = format!("line one {}\n\nbody ünï\n", r.below(1000));
                let f = top.join(format!("msg{step}"));
                util::write(&f, &msg);
                a.extend(["-F".into(), f.to_string_lossy().to_string()]);
            }
            _ => {}
        }
        let cwd = if r.chance(1, 3) {
            a.extend(["-w".into(), work.to_string_lossy().to_string()]);
            let c = top.join("elsewhere");
            std::fs::create_dir_all(&c).unwrap();
            c
        } else {
            work.clone()
        };
        crumb(format!("{a:?} {trail:?}"));
        let (code, out, err) = rez_env(&a, &cwd, &env);
        let pre = has_git && (!dirty || skip) && (!tag_local || ignore);
        let push_ok = has_origin && !refuses && !tag_origin;
        let want = pre && (dry || (!breaks && !bad_test && (tag_local || push_ok)));
        let after = (refs(&work, &cfg), if has_origin && has_git { refs(&origin, &cfg) } else { String::new() });
        let rel_after = tree(&release);
        let situation = json!({"command": a, "history": trail, "git": has_git, "origin": has_origin, "dirty": dirty, "tag here": tag_local, "tag at origin": tag_origin, "origin refuses": refuses, "bad build": bad_build, "bad test": bad_test, "kind": kind, "variants": nv, "chosen": chosen, "exit": code, "out": out.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>(), "err": err.chars().take(300).collect::<String>()});
        rec.check("a release succeeds exactly when its repository, build, tests and tag allow it", (code == 0) == want, || situation.clone());
        if nv > 0 {
            let built = log_of(&blog);
            let full: Vec<String> = chosen.clone().unwrap_or_default().iter().map(|i| format!("v{i}")).collect();
            let ok = if code == 0 && !dry { built == full } else { full.starts_with(&built) && (!dry || built.is_empty()) };
            rec.check("a release builds the chosen variants, each once", ok, || json!({"case": situation, "built": built, "want": full}));
            rec.count("releases with variants");
        }
        let mut src_after = tree(&work);
        for t in [&mut src_before, &mut src_after] {
            t.retain(|k, _| k != ".rez_build" && !k.starts_with(".rez_build/") && k != ".git" && !k.starts_with(".git/"));
        }
        rec.check("a release leaves the source tree as it was", src_before == src_after, || json!({"case": situation, "delta": delta(&src_after, &src_before)}));
        if code != 0 || dry {
            rec.check("a release that fails or is only rehearsed tags nothing", before == after, || json!({"case": situation, "before": before, "after": after}));
            if !existed || !pre || dry {
                let (mut x, mut y) = (rel_before.clone(), rel_after.clone());
                // an empty package family directory may remain
                for t in [&mut x, &mut y] {
                    t.remove(&name);
                }
                rec.check("a release that fails or is only rehearsed installs nothing", x == y, || json!({"case": situation, "delta": delta(&y, &x)}));
            }
            let other = |t: &Tree| t.iter().filter(|(k, _)| !(k.as_str() == name || k.starts_with(&format!("{name}/")))).map(|(k, v)| (k.clone(), v.clone())).collect::<Tree>();
            rec.check("other packages of the release repository are untouched", other(&rel_before) == other(&rel_after), || situation.clone());
        } else {
            let got = plain(tree(&pkgdir));
            let mut payload: Tree = plain(src_after.clone());
            payload.retain(|k, _| !matches!(k.as_str(), ".gitignore" | ".git"));
            if kind == 2 {
                payload.retain(|k, _| k == "package.py");
            }
            if kind >= 1 {
                payload.insert("built.txt".into(), "file 644 built\n".into());
            }
            let missing: Vec<_> = payload.iter().filter(|(k, v)| got.get(*k) != Some(v)).map(|(k, _)| k.clone()).collect();
            rec.check("a release installs the package it released", missing.is_empty() && (existed || got == payload), || json!({"case": situation, "delta": delta(&got, &payload)}));
            let (mut x, mut y) = (rel_before.clone(), rel_after.clone());
            for t in [&mut x, &mut y] {
                t.retain(|k, _| !(k.as_str() == name || k == &format!("{name}/{ver}") || k.starts_with(&format!("{name}/{ver}/"))));
            }
            rec.check("nothing else in the release repository changes", x == y, || json!({"case": situation, "delta": delta(&y, &x)}));
            if tag_local {
                rec.check("an existing tag is left as it is", before == after, || json!({"case": situation, "before": before, "after": after}));
            } else {
                let kind_ = g(&["cat-file", "-t", &format!("refs/tags/{tag}")]).1;
                let at = g(&["rev-parse", &format!("refs/tags/{tag}^{{commit}}")]).1;
                let text = g(&["for-each-ref", "--format=%(contents)", &format!("refs/tags/{tag}")]).1;
                rec.check("a release is an annotated tag at the released commit", kind_.trim() == "tag" && at == head, || json!({"case": situation, "type": kind_, "at": at, "head": head}));
                rec.check("the tag carries the release message", text.trim() == msg.trim(), || json!({"case": situation, "text": text, "message": msg}));
                let line = |s: &str| s.lines().find(|l| l.starts_with(&format!("refs/tags/{tag} "))).map(|x| x.to_string());
                rec.check("the tag is published", line(&after.0).is_some() && line(&after.0) == line(&after.1), || json!({"case": situation, "after": after}));
                let rest = |s: &str| s.lines().filter(|l| !l.starts_with(&format!("refs/tags/{tag} "))).map(|x| x.to_string()).collect::<Vec<_>>();
                // publishing a tag may bring the remote-tracking knowledge up to date, never another tag or branch
                rec.check("no other tag or branch changes", rest(&before.0) == rest(&after.0) && rest(&before.1) == rest(&after.1), || json!({"case": situation, "before": before, "after": after}));
            }
        }
        if refuses {
            let _ = std::fs::remove_file(origin.join("hooks/pre-receive"));
        }
        rec.count(format!("{}{}", if code == 0 { "released" } else { "refused" }, if dry { " (dry run)" } else { "" }));
        rec.seen.push(format!("{has_git} {has_origin} {dirty} {tag_local} {tag_origin} {same_at_origin} {refuses} {bad_build} {bad_test} {dry} {skip} {ignore} {kind} {existed}"));
        trail.push(format!("release -> {code}"));
    }
    // the release manager of the library
    for _ in 0..2 {
        let mode = *r.pick(&["local", "dry", "release"]);
        let (skip_tests, skip_vcs) = (r.chance(1, 3), r.chance(1, 3));
        let msg = match r.below(4) {
            0 | 1 => "-".to_string(),
            2 => format!("said {}", r.below(100)),
            _ => format!("said {} at length: {}\n\nand in a body", r.below(100), "words ".repeat(r.range(5, 40))),
        };
        if has_git && r.chance(1, 2) {
            g(&["reset", "-q", "--hard"]);
            g(&["clean", "-qfd"]);
        }
        let next = r.chance(1, 2);
        if next {
            ver = format!("7.{}", r.below(1000));
            write_pkg(&ver, false, false);
            if has_git {
                g(&["add", "-A"]);
                g(&["commit", "-qm", "tests"]);
                if has_origin {
                    g(&["push", "-q", "origin", "HEAD"]);
                }
            }
        }
        let dirty = has_git && !g(&["status", "--porcelain"]).1.is_empty();
        let tag = format!("{name}-{ver}");
        let before = refs(&work, &cfg);
        let base = if mode == "release" { &release } else { &local };
        let dir = base.join(&name).join(&ver);
        let (rb, lb) = (tree(&release), tree(&local));
        let exe = std::env::current_exe().unwrap();
        let o = Command::new(exe)
            .args(["child:relmgr", mode, "0", if skip_tests { "1" } else { "0" }, if skip_vcs { "1" } else { "0" }])
            .arg(&work)
            .arg(&msg)
            .envs(env.iter().map(|(k, v)| (*k, v.as_str())))
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .current_dir(&top)
            .output()
            .unwrap();
        let res: Value = serde_json::from_str(String::from_utf8_lossy(&o.stdout).trim()).unwrap_or(Value::Null);
        let ok = res["success"] == json!(true);
        let after = refs(&work, &cfg);
        let sit = json!({"mode": mode, "skip vcs": skip_vcs, "dirty": dirty, "git": has_git, "history": trail, "result": res});
        // a clean clone without an upstream may be refused too; a dirty one always is
        if has_git && !skip_vcs && dirty {
            rec.check("a dirty repository is not released", !ok, || sit.clone());
        }
        if skip_vcs || !has_git {
            rec.check("a release without version control succeeds", ok, || sit.clone());
        }
        if !ok || mode == "dry" {
            rec.check("a failed or rehearsed library release changes nothing", before == after && rb == tree(&release) && lb == tree(&local), || json!({"case": sit, "release": delta(&tree(&release), &rb), "local": delta(&tree(&local), &lb)}));
        } else {
            let src = std::fs::read_to_string(work.join("package.py")).unwrap();
            rec.check("a library release installs the definition where it says", std::fs::read_to_string(dir.join("package.py")).unwrap_or_default() == src && res["install_path"] == json!(dir), || json!({"case": sit, "dir": dir}));
            if next {
                let mut said: Vec<Vec<String>> = tree(&dir)
                    .keys()
                    .filter(|k| k.ends_with("/variant.json"))
                    .filter_map(|k| std::fs::read_to_string(dir.join(k)).ok())
                    .filter_map(|t| serde_json::from_str::<Value>(&t).ok())
                    .filter_map(|v| serde_json::from_value(v["variant"].clone()).ok())
                    .collect();
                said.sort();
                rec.check("every variant of a library release has its directory", said == variants, || json!({"case": sit, "variants": said}));
            }
            let fresh_tag = !before.contains(&format!("refs/tags/{tag} "));
            if has_git && !skip_vcs && fresh_tag {
                let text = g(&["for-each-ref", "--format=%(contents)", &format!("refs/tags/{tag}")]).1;
                let said = if msg == "-" { format!("Release {tag}") } else { msg.clone() };
                let at = g(&["rev-parse", &format!("refs/tags/{tag}^{{commit}}")]).1;
                rec.check("a library release tag carries its message at the released commit", text.trim() == said.trim() && at == g(&["rev-parse", "HEAD"]).1, || json!({"case": sit, "text": text, "message": said, "at": at}));
            }
            if has_git && !skip_vcs {
                rec.check("a library release is tagged", after.contains(&format!("refs/tags/{tag} ")), || json!({"case": sit, "refs": after}));
            } else {
                rec.check("without version control nothing is tagged", before == after, || sit.clone());
            }
        }
        rec.count(format!("library release {mode} {ok}"));
    }
    util::rm(&top);
    rec
}

pub fn l01(m: &mut Mon) {
    m.describe(
        "over histories of commits, tags, faults and releases against real git repositories: the exit status is what the state allows; a failed or rehearsed release leaves tags, origin, release repository and source unchanged; a successful one installs exactly that package and publishes one annotated tag at the released commit",
        &["git only: the other version control systems are refused by the command", "a package directory that already existed before a failing release is not judged", "release hooks and the optional test discovery through a `python` executable are not exercised"],
        600,
    );
    let n = m.size(240, 6);
    parallel(m, n, 8, l01_scenario);
}
