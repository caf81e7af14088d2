//! T01: `rez-next test` end to end
use crate::builds::{Rec, parallel};
use crate::envs::{Map, Op, Pk, diff, model};
use crate::mon::{Mon, Rng};
use crate::util::{fresh, rm, write};
use rez_next_context::ContextConfig;
use rez_next_package::Package;
use rez_next_version::Version;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const NOISE: [&str; 4] = ["_", "SHLVL", "PWD", "OLDPWD"];
fn clean(m: &Map) -> Map {
    m.iter().filter(|(k, _)| !NOISE.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn cut(s: &str) -> String {
    s.chars().take(500).collect()
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", "))
}

/// what a test does: the text of its command, the arguments it must report, its status
#[derive(Clone)]
struct T {
    name: String,
    code: i32,
    killed: bool,
    args: Vec<String>,
}
#[derive(Clone)]
struct Subject {
    ver: String,
    dir: PathBuf,
    requires: Vec<String>,
    variants: Vec<Vec<String>>,
    tests: Vec<T>,
    pk: Pk,
}

fn dep(repo: &Path, name: &str, ver: &str, requires: &[&str]) -> Pk {
    let root = repo.join(name).join(ver);
    let up = name.to_uppercase();
    let req = if requires.is_empty() { String::new() } else { format!("requires = {requires:?}\n") };
    write(root.join("package.py"), &format!("name = \"{name}\"\nversion = \"{ver}\"\n{req}def commands():\n    env.{up}_V = \"v{{version}}\"\n    env.{up}_R = \"{{root}}/x y\"\n"));
    let mut p = Package::new(name.to_string());
    p.version = Version::parse(ver).ok();
    Pk { p, root: root.to_string_lossy().into_owned(), ver: Some(ver.into()), phases: [None, Some(vec![Op::Set(format!("{up}_V"), "v{version}".into()), Op::Set(format!("{up}_R"), "{root}/x y".into())]), None] }
}

fn subject(r: &mut Rng, name: &str, ver: &str, dir: &Path, observer: &str, out: &Path, dev: bool) -> Subject {
    let mut requires: Vec<String> = vec![];
    for d in ["dep_a", "dep_b"] {
        if r.chance(1, 2) {
            requires.push(format!("{d}{}", r.pick(&["", "", "-1", "-1+", "<2"])));
        }
    }
    if r.chance(1, 12) {
        requires.push("dep_missing".into());
    }
    let mut variants: Vec<Vec<String>> = vec![];
    if r.chance(1, 3) {
        variants = r.pick(&[vec![vec!["dep_a-1"], vec!["dep_a-2"]], vec![vec!["dep_a-2", "dep_c"]], vec![vec!["dep_a-1", "dep_c", "dep_b"], vec!["dep_a-2", "dep_c", "dep_b"]], vec![vec!["dep_a-7"], vec!["dep_a-1", "dep_c"]]]).iter().map(|v| v.iter().map(|x| x.to_string()).collect()).collect();
    }
    let mut text = format!("name = \"{name}\"\nversion = \"{ver}\"\n");
    if !requires.is_empty() {
        text.push_str(&format!("requires = {}\n", list(&requires)));
    }
    if !variants.is_empty() {
        text.push_str(&format!("variants = [{}]\n", variants.iter().map(|v| list(v)).collect::<Vec<_>>().join(", ")));
        if !dev {
            for v in &variants {
                std::fs::create_dir_all(v.iter().fold(dir.to_path_buf(), |p, x| p.join(x))).unwrap();
            }
        }
    }
    let mut names: Vec<&str> = vec!["unit", "my_unit", "unit_fast", "units", "lint", "a.b", "axb", "x", "long", "fast_unit_2"];
    r.shuffle(&mut names);
    let mut tests = vec![];
    let mut rows = vec![];
    for n in names.iter().take(r.range(1, 5)) {
        let code = if r.chance(2, 3) { 0 } else { *r.pick(&[1, 2, 3, 9, 42, 127, 255]) };
        let killed = r.chance(1, 20);
        let tag = format!("{name}:{ver}:{n}");
        let (tail, more): (&str, Vec<String>) = match r.below(6) {
            0 => (" 'two words' \\\"q\\\"", vec!["two words".into(), "q".into()]),
            1 => (" \\\"$OWN\\\"", vec!["$OWN".into()]),
            2 => (" a && true", vec!["a".into()]),
            3 => (" < /dev/null > /dev/null 2>&1", vec![]),
            4 => (" ; exit $?", vec![]),
            _ => ("", vec![]),
        };
        let tail = if killed { format!("{} ; kill -9 $$", tail.replace(" ; exit $?", "")) } else { tail.to_string() };
        rows.push(format!("    \"{n}\": \"{observer} child:dump {} {code} {tag}{tail}\",\n", out.display()));
        let mut args = vec![tag];
        args.extend(more);
        tests.push(T { name: n.to_string(), code: if killed { 255 } else { code }, killed, args });
    }
    if r.chance(9, 10) {
        text.push_str(&format!("tests = {{\n{}}}\n", rows.join("")));
    } else {
        tests.clear();
    }
    tests.sort_by(|a, b| a.name.cmp(&b.name));
    let mut p = Package::new(name.to_string());
    p.version = Version::parse(ver).ok();
    let mut ops = vec![Op::Set("OWN".into(), format!("own {ver}"))];
    text.push_str(&format!("def commands():\n    env.OWN = \"own {ver}\"\n"));
    if r.chance(1, 2) {
        text.push_str("    env.PATH.prepend(\"{root}/bin\")\n");
        ops.push(Op::Pre("PATH".into(), "{root}/bin".into()));
    }
    if r.chance(1, 4) {
        text.push_str("    unsetenv(\"PARENT\")\n");
        ops.push(Op::Unset("PARENT".into()));
    }
    let mut post = vec![];
    if r.chance(1, 3) {
        text.push_str("def post_commands():\n    env.ORDER.append(\"post\")\n");
        post.push(Op::App("ORDER".into(), "post".into()));
    }
    if r.chance(1, 3) {
        text.push_str("def pre_test_commands():\n    env.ORDER.append(\"pretest\")\n    env.READY = \"{root}\"\n");
        post.push(Op::App("ORDER".into(), "pretest".into()));
        post.push(Op::Set("READY".into(), "{root}".into()));
    }
    write(dir.join("package.py"), &text);
    let pk = Pk { p, root: dir.to_string_lossy().into_owned(), ver: Some(ver.into()), phases: [None, Some(ops), if post.is_empty() { None } else { Some(post) }] };
    Subject { ver: ver.into(), dir: dir.to_path_buf(), requires, variants, tests, pk }
}

/// `*` stands for any text, everything else for itself
fn glob(p: &[char], s: &[char]) -> bool {
    match (p.first(), s.first()) {
        (None, None) => true,
        (Some('*'), _) => glob(&p[1..], s) || (!s.is_empty() && glob(p, &s[1..])),
        (Some(a), Some(b)) if a == b => glob(&p[1..], &s[1..]),
        _ => false,
    }
}

fn scenario(mut r: Rng, i: usize) -> Rec {
    let mut rec = Rec::default();
    let d = fresh("ptest");
    let bin = std::env::var("REZMON_BIN").unwrap();
    let observer = format!("{bin}/rezmon");
    let out = d.join("dump");
    let repos = [d.join("repo a"), d.join("local_b")];
    let mut deps: Vec<Pk> = vec![];
    for (n, v, q) in [("dep_a", "1.0", vec![]), ("dep_a", "2.0", vec![]), ("dep_b", "1.5", vec!["dep_c"]), ("dep_c", "3", vec![])] {
        deps.push(dep(&repos[0], n, v, &q));
    }
    let home = repos[r.below(2)].clone();
    let mut vers = vec!["1.0", "2.0", "9.0", "10.0", "10.0.1", "3", "2.10"];
    r.shuffle(&mut vers);
    let mut subs: Vec<Subject> = vec![];
    for v in vers.iter().take(r.range(1, 4)) {
        subs.push(subject(&mut r, "subj", v, &home.join("subj").join(v), &observer, &out, false));
    }
    // directories that hold no package
    if r.chance(1, 3) {
        std::fs::create_dir_all(home.join("subj").join("11.0").join("build")).unwrap();
    }
    if r.chance(1, 4) {
        write(home.join("subj").join("99"), "a file\n");
    }
    subs.sort_by(|a, b| Version::parse(&a.ver).unwrap().cmp(&Version::parse(&b.ver).unwrap()));
    let work = d.join("work dir");
    std::fs::create_dir_all(&work).unwrap();
    // a working directory that is a package of its own
    let here = r.below(3);
    let local = match here {
        1 => Some(subject(&mut r, "subj", "4.0", &work, &observer, &out, true)),
        2 => Some(subject(&mut r, "other", "4.0", &work, &observer, &out, true)),
        _ => None,
    };
    let mut base: Map = BTreeMap::new();
    base.insert("HOME".into(), d.join("home").to_string_lossy().into_owned());
    base.insert("PATH".into(), "/usr/local/bin:/usr/bin:/bin".into());
    base.insert("PARENT".into(), r.pick(&["p", "", "a b 'q' $x"]).to_string());
    let no_local = r.chance(1, 6);
    let by_env = no_local || r.chance(1, 2);
    base.insert("REZ_PACKAGES_PATH".into(), if by_env { format!("{}:{}", repos[0].display(), repos[1].display()) } else { d.join("none").to_string_lossy().into_owned() });
    base.insert("REZ_LOCAL_PACKAGES_PATH".into(), repos[1].to_string_lossy().into_owned());
    for round in 0..5 {
        let spec = if local.is_some() && r.chance(1, 4) { "." } else { "subj" };
        let latest = subs.last().unwrap();
        let chosen: Option<(&Subject, bool)> = match (&local, spec, here) {
            (Some(l), ".", _) | (Some(l), _, 1) => Some((l, true)),
            _ if no_local && home == repos[1] => None,
            _ => Some((latest, false)),
        };
        let mut args: Vec<String> = vec!["test".into(), spec.into()];
        let mut asked: Vec<String> = vec![];
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 3) {
                let n = match r.below(4) {
                    0 | 1 => chosen.and_then(|c| c.0.tests.first().map(|t| t.name.clone())).unwrap_or("unit".into()),
                    2 => r.pick(&["unit*", "*unit", "*", "u*t", "a.b*", "*a.b", "*x*", "l*", "*_*", "unit"]).to_string(),
                    _ => r.pick(&["lint", "x", "a.b", "axb", "absent", "units"]).to_string(),
                };
                asked.push(n);
            }
        }
        args.extend(asked.clone());
        let mut extra = vec![];
        if !by_env {
            args.extend(["--paths".into(), format!("{}:{}", repos[0].display(), repos[1].display())]);
        }
        if no_local {
            args.push("--no-local".into());
        }
        if r.chance(1, 4) {
            extra.push(r.pick(&["dep_c", "dep_b", "dep_a-1", "dep_a-2"]).to_string());
            args.extend(["--extra-packages".into(), extra[0].clone()]);
        }
        for _ in 0..r.below(8).saturating_sub(5) {
            args.push("-v".into());
        }
        let stop = r.chance(1, 4);
        if stop {
            args.push("--stop-on-fail".into());
        }
        let mode = if r.chance(1, 6) { "dry" } else if r.chance(1, 8) { "list" } else { "run" };
        if mode != "run" {
            args.push(if mode == "dry" { "--dry-run".into() } else { "--list".into() });
        }
        let at = if r.chance(1, 2) {
            args.extend(["-w".into(), work.to_string_lossy().into_owned()]);
            d.clone()
        } else {
            work.clone()
        };
        let _ = std::fs::remove_file(&out);
        let o = Command::new(Path::new(&bin).join("rez-next")).args(&args).env_clear().envs(&base).current_dir(&at).stdin(Stdio::null()).output().unwrap();
        let rc = o.status.code().unwrap_or(-1);
        let (so, se) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
        let dumps: Vec<Value> = std::fs::read_to_string(&out).unwrap_or_default().lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
        let what = |extra: Value| json!({"args": args, "versions": subs.iter().map(|s| s.ver.clone()).collect::<Vec<_>>(), "here": here, "status": rc, "stdout": cut(&so), "stderr": cut(&se), "observation": extra});
        rec.seen.push(format!("{i}/{round} {args:?}"));
        let Some((sub, dev)) = chosen else {
            rec.count("package not reachable");
            rec.check("a package that cannot be found is refused and nothing runs", rc != 0 && dumps.is_empty(), || what(json!("no local")));
            continue;
        };
        // the packages the environment must hold
        let mut sets: Vec<(Vec<String>, PathBuf)> = vec![];
        let with = |v: &[String]| -> Vec<String> { sub.requires.iter().chain(extra.iter()).chain(v.iter()).cloned().collect() };
        if sub.variants.is_empty() {
            sets.push((with(&[]), sub.dir.clone()));
        }
        for v in &sub.variants {
            sets.push((with(v), if dev { sub.dir.clone() } else { v.iter().fold(sub.dir.clone(), |p, x| p.join(x)) }));
        }
        // every dependency set either has exactly one best answer or none
        let solve = |q: &[String]| -> Option<Vec<Pk>> {
            let mut want: BTreeMap<String, Vec<&str>> = BTreeMap::new();
            let mut todo: Vec<String> = q.to_vec();
            while let Some(t) = todo.pop() {
                let cutat = t.find(|c| c == '-' || c == '<').unwrap_or(t.len());
                let (n, c) = t.split_at(cutat);
                let fresh = !want.contains_key(n);
                let c: &str = match c { "" => "", "-1" => "-1", "-2" => "-2", "-7" => "-7", "-1+" => "-1+", "<2" => "<2", _ => unreachable!("{c}") };
                want.entry(n.to_string()).or_default().push(c);
                if fresh && n == "dep_b" {
                    todo.push("dep_c".into());
                }
            }
            let mut sel = vec![];
            for (n, cs) in &want {
                let k = deps.iter().rev().find(|k| {
                    k.p.name == *n && cs.iter().all(|c| {
                        let major: u32 = k.ver.as_ref().unwrap().split('.').next().unwrap().parse().unwrap();
                        match *c { "-1" => major == 1, "-2" => major == 2, "-7" => false, "-1+" => major >= 1, "<2" => major < 2, _ => true }
                    })
                })?;
                sel.push(k.clone());
            }
            Some(sel)
        };
        let answers: Vec<(Vec<Pk>, PathBuf)> = sets.iter().filter_map(|(q, root)| solve(q).map(|s| (s, root.clone()))).collect();
        if answers.is_empty() {
            rec.count("unresolvable");
            rec.check("tests of a package that cannot be resolved do not run, and fail", rc != 0 && dumps.is_empty(), || what(json!({"requires": sub.requires, "variants": sub.variants})));
            continue;
        }
        // which of its variants the solver tries for an installed package is its own affair
        if !dev && answers.len() < sets.len() && rc != 0 && dumps.is_empty() {
            rec.count("refused with some variant possible");
            continue;
        }
        let selected: Vec<&T> = if asked.is_empty() {
            sub.tests.iter().collect()
        } else {
            let mut v: Vec<&T> = vec![];
            for a in &asked {
                let pat: Vec<char> = a.chars().collect();
                for t in &sub.tests {
                    if glob(&pat, &t.name.chars().collect::<Vec<_>>()) && !v.iter().any(|x| x.name == t.name) {
                        v.push(t);
                    }
                }
            }
            v
        };
        let ran: Vec<Vec<String>> = dumps.iter().map(|x| serde_json::from_value(x["args"].clone()).unwrap_or_default()).collect();
        if mode == "list" {
            rec.count("listed");
            let shown: Vec<String> = so.lines().filter(|l| l.starts_with("  ")).filter_map(|l| l.split_whitespace().next().map(str::to_string)).collect();
            rec.check("a listing names every test of the package and runs none", rc == 0 && ran.is_empty() && (sub.tests.is_empty() || shown == sub.tests.iter().map(|t| t.name.clone()).collect::<Vec<_>>()), || what(json!({"want": sub.tests.iter().map(|t| t.name.clone()).collect::<Vec<_>>(), "got": shown})));
            continue;
        }
        if mode == "dry" {
            rec.count("dry runs");
            rec.check("a dry run runs nothing", ran.is_empty() && rc == 0, || what(json!(ran)));
            continue;
        }
        let mut expect: Vec<&T> = vec![];
        for t in &selected {
            expect.push(t);
            if stop && t.code != 0 {
                break;
            }
        }
        let ver = sub.ver.clone();
        let own = format!("own {ver}");
        let want: Vec<Vec<String>> = expect.iter().map(|t| t.args.iter().map(|a| a.replace("$OWN", &own)).collect()).collect();
        rec.check("exactly the requested tests of the package run, once each, in order", ran == want, || what(json!({"want": want, "got": ran})));
        if ran != want {
            continue;
        }
        let code = expect.iter().map(|t| t.code).find(|c| *c != 0).unwrap_or(0);
        rec.check("the status is that of the first test that fails", rc == code, || what(json!({"want": code})));
        if !expect.is_empty() {
            let n = |k: &str| so.lines().find_map(|l| l.trim().strip_prefix(k)).and_then(|x| x.trim().parse::<usize>().ok());
            let passed = expect.iter().filter(|t| t.code == 0).count();
            rec.check("the summary counts every test once", n("Total:") == Some(expect.len()) && n("Passed:") == Some(passed) && n("Failed:") == Some(expect.len() - passed) && so.contains("All tests passed") == (passed == expect.len()), || what(json!({"passed": passed, "of": expect.len()})));
            rec.count(if code == 0 { "runs that pass" } else { "runs that fail" });
            if expect.iter().any(|t| t.killed) {
                rec.count("tests that are killed");
            }
        }
        for x in &dumps {
            rec.check("a test runs in the directory of its package", x["cwd"] == json!(sub.dir.to_string_lossy()), || what(json!(x["cwd"])));
            let e: Vec<(String, String)> = serde_json::from_value(x["env"].clone()).unwrap_or_default();
            let got: Map = e.into_iter().collect();
            let mut diffs = vec![];
            let ok = answers.iter().enumerate().any(|(ai, (sel, root))| {
                if dev && ai > 0 {
                    return false;
                }
                let mut pks = sel.clone();
                let mut own = sub.pk.clone();
                own.root = root.to_string_lossy().into_owned();
                pks.push(own);
                let act = model(&base, &pks, &ContextConfig::default()).unwrap();
                let same = clean(&act.vars) == clean(&got);
                if !same {
                    diffs.push(diff(&clean(&act.vars), &clean(&got)));
                }
                same
            });
            rec.check("a test sees exactly the environment of its package, the extra packages and the pre-test commands", ok, || what(json!(diffs)));
        }
    }
    rm(&d);
    rec
}

pub fn t01(m: &mut Mon) {
    m.describe(
        "rez-next test is run on generated packages, versions, variants, working directories and test selections; every test command is the observer itself, which records its arguments, directory and environment; the record, the status and the summary are compared with an independent reading of the request",
        &["sh is the shell", "each dependency request in the workload has one best answer; which variant of an installed package is chosen is judged by S01"],
        1500,
    );
    let n = m.size(220, 12);
    parallel(m, n, 8, scenario);
}
