//! E01 environment generation, E02 activation scripts, E03 execution, X01 saved contexts.
use crate::mon::{Mon, Rng, crumb};
use crate::util::{fresh, rm, write};
use rez_next_context::*;
use rez_next_package::{Package, PackageRequirement};
use rez_next_rex::{RexEnvironment, RexExecutor};
use rez_next_version::Version;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

pub type Map = BTreeMap<String, String>;

#[derive(Clone, Debug)]
pub enum Op {
    Set(String, String),
    Unset(String),
    Pre(String, String),
    App(String, String),
    IfEmpty(String, String),
    Alias(String, String),
    Cmd(String),
    Src(String),
    Info(String),
    Err(String),
    Stop(Option<String>),
    Nothing,
    Bad,
}

/// Independent state of an activation.
#[derive(Clone, Default, Debug)]
pub struct Act {
    pub vars: Map,
    aliases: Map,
    cmds: Vec<String>,
    srcs: Vec<String>,
    info: Vec<String>,
    stopped: bool,
    stop_msg: Option<String>,
}

impl Act {
    fn run(&mut self, op: &Op, ex: &dyn Fn(&str) -> String) {
        match op {
            Op::Set(n, v) => {
                self.vars.insert(n.clone(), ex(v));
            }
            Op::Unset(n) => {
                self.vars.remove(n);
            }
            Op::Pre(n, v) | Op::App(n, v) => {
                let v = ex(v);
                let old = self.vars.get(n).cloned().filter(|o| !o.is_empty());
                let new = match (old, op) {
                    (None, _) => v,
                    (Some(o), Op::Pre(..)) => format!("{v}:{o}"),
                    (Some(o), _) => format!("{o}:{v}"),
                };
                self.vars.insert(n.clone(), new);
            }
            Op::IfEmpty(n, v) => {
                if !self.vars.contains_key(n) {
                    self.vars.insert(n.clone(), ex(v));
                }
            }
            Op::Alias(n, v) => {
                self.aliases.insert(n.clone(), ex(v));
            }
            Op::Cmd(c) => self.cmds.push(ex(c)),
            Op::Src(c) => self.srcs.push(ex(c)),
            Op::Info(c) => self.info.push(ex(c)),
            Op::Err(c) => self.info.push(format!("[error] {}", ex(c))),
            Op::Stop(x) => {
                self.stopped = true;
                self.stop_msg = x.as_ref().map(|x| ex(x));
            }
            Op::Nothing | Op::Bad => {}
        }
    }
}

/// One left-to-right pass; longest reference wins; inserted text is not looked at again.
fn expand(t: &str, refs: &[(String, String)]) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < t.len() {
        let rest = &t[i..];
        let hit = refs
            .iter()
            .filter(|(k, _)| rest.starts_with(k.as_str()))
            .filter(|(k, _)| !k.starts_with('$') || !rest[k.len()..].starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_'))
            .max_by_key(|(k, _)| k.len());
        match hit {
            Some((k, v)) => {
                out.push_str(v);
                i += k.len();
            }
            None => {
                let c = rest.chars().next().unwrap();
                out.push(c);
                i += c.len_utf8();
            }
        }
    }
    out
}

fn refs_of(name: &str, root: &str, ver: Option<&str>) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut add = |k: &str, x: &str| {
        v.push((format!("{{{k}}}"), x.to_string()));
        v.push((format!("${}", k.to_uppercase()), x.to_string()));
    };
    add("root", root);
    add("this.root", root);
    add("name", name);
    add("this.name", name);
    if let Some(ver) = ver {
        add("version", ver);
        add("this.version", ver);
        for (i, c) in ver.split('.').take(3).enumerate() {
            add(&format!("this.version.{}", ["major", "minor", "patch"][i]), c);
        }
    }
    v
}

const VARS: &[&str] = &["A", "B", "PATH", "PYTHONPATH", "LD_LIBRARY_PATH", "MAYA_ROOT", "LIB_A_VERSION", "lower_case"];

fn value(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 4) {
        s.push_str(r.pick(&[
            "{root}", "{this.root}", "{version}", "{this.version}", "{this.version.major}", "{this.version.minor}", "{this.version.patch}", "{name}", "{this.name}", "$ROOT", "$NAME",
            "$VERSION", "$ROOTS", "${root}", "{Root}", "{other}", "{", "}", "$", "$$ROOT", "{{root}}", "/bin", "/lib/a b", "x", "=", ",", "(y)", "é", "日本", "\\", "a;b", "#h", "'", "\"", ":", "%20",
            "{root}{root}", "/usr/bin", "//", "$PATH", "$ROOT_X", "$THIS.VERSION.MAJOR", "$THIS.VERSION", "$VERSION.x", "a  b",
        ]));
    }
    s
}

fn q(s: &str) -> Option<String> {
    if !s.contains('\'') {
        Some(format!("'{s}'"))
    } else if !s.contains('"') {
        Some(format!("\"{s}\""))
    } else {
        None
    }
}

fn line(r: &mut Rng, ops: &mut Vec<Op>, bad: bool) -> String {
    let n = r.pick(VARS).to_string();
    let (v, qv) = loop {
        let v = value(r);
        if let Some(x) = q(&v) {
            break (v, x);
        }
    };
    let qn = if r.chance(1, 2) { format!("'{n}'") } else { format!("\"{n}\"") };
    let sp = *r.pick(&["", " "]);
    let e = *r.pick(&["env.", ""]);
    let (t, op) = match r.below(if bad { 25 } else { 24 }) {
        0..=4 => (format!("{e}setenv{sp}({qn},{sp}{qv}{sp})"), Op::Set(n, v)),
        5..=8 => (format!("{}({qn}, {qv})", r.pick(&["env.prepend_path", "prependenv"])), Op::Pre(n, v)),
        9..=11 => (format!("{}({qn},{qv})", r.pick(&["env.append_path", "appendenv"])), Op::App(n, v)),
        12 | 13 => (format!("env.setenv_if_empty({qn}, {qv})"), Op::IfEmpty(n, v)),
        14 => (format!("{e}unsetenv({qn})"), Op::Unset(n)),
        15 => (format!("{e}resetenv({qn})"), Op::Unset(n)),
        16 => (format!("alias('t{}', {qv})", v.len() % 4), Op::Alias(format!("t{}", v.len() % 4), v)),
        17 => (format!("command({qv})"), Op::Cmd(v)),
        18 => (format!("source({qv})"), Op::Src(v)),
        19 => (format!("info({qv})"), Op::Info(v)),
        20 => (format!("error({qv})"), Op::Err(v)),
        21 => match r.below(3) {
            0 if r.chance(1, 2) => ("stop()".into(), Op::Stop(None)),
            1 if r.chance(1, 2) => (format!("stop({qv})"), Op::Stop(Some(v))),
            _ => (r.pick(&["# setenv('A', 'commented')", "// note", "", "   ", "comment('env.setenv(A, 1)')"]).to_string(), Op::Nothing),
        },
        22 => {
            let v: String = v.chars().filter(|c| !matches!(c, '"' | '\'')).collect::<String>().trim().to_string();
            if r.chance(1, 2) || v.is_empty() { (format!("export {n}=\"{v}\""), Op::Set(n, v)) } else { (format!("export {n}={v}"), Op::Set(n, v)) }
        }
        23 => {
            let v: String = v.chars().filter(|c| !matches!(c, '"' | '\'' | '(')).collect::<String>().trim().to_string() + "z";
            (format!("setenv {n} {v}"), Op::Set(n, v))
        }
        _ => (r.pick(&["env.launch('x')", "setenv('A')", "rm -rf nothing", "env.A = 3", "setenv('A', 'b') or 1"]).to_string(), Op::Bad),
    };
    ops.push(op);
    format!("{}{t}{}", r.pick(&["", "  "]), r.pick(&["", " "]))
}

#[derive(Clone)]
pub struct Pk {
    pub p: Package,
    pub root: String,
    pub ver: Option<String>,
    pub phases: [Option<Vec<Op>>; 3],
}

fn gen_packages(r: &mut Rng, dir: &Path, bad: bool) -> Vec<Pk> {
    let mut names = vec!["maya", "lib_a", "Houdini", "py", "x9"];
    r.shuffle(&mut names);
    let n = r.range(0, 4);
    let mut out = vec![];
    for name in names.into_iter().take(n) {
        let mut p = Package::new(name.to_string());
        let ver = if r.chance(1, 5) { None } else { Some(r.pick(&["1.2.3", "7", "2024.1", "3.11.4.5"]).to_string()) };
        p.version = ver.as_ref().map(|v| Version::parse(v).unwrap());
        let root = if r.chance(1, 4) {
            format!("/packages/{name}")
        } else {
            let d = dir.join(*r.pick(&["repo", "re po", "re{version}po", "r$NAME"])).join(name).join(ver.as_deref().unwrap_or("none"));
            std::fs::create_dir_all(&d).unwrap();
            p.filepath = Some(d.join("package.py").to_string_lossy().into_owned());
            d.to_string_lossy().into_owned()
        };
        for t in 0..r.below(3) {
            let tool = format!("tool{t}");
            if r.chance(1, 3) && root.contains("rezmon") {
                let f = Path::new(&root).join(format!("{tool}{}", r.pick(&["", ".exe", ".bat"])));
                if r.chance(1, 4) {
                    // a directory of that name is no tool
                    let _ = std::fs::create_dir_all(&f);
                } else if !f.is_dir() {
                    write(f, "x");
                }
            }
            p.tools.push(tool);
        }
        let mut phases = [None, None, None];
        for (i, ph) in phases.iter_mut().enumerate() {
            if r.chance(2, 3) {
                let mut ops = vec![];
                let lines: Vec<String> = (0..r.range(0, 6)).map(|_| line(r, &mut ops, bad)).collect();
                let t = Some(lines.join("\n"));
                match i {
                    0 => p.pre_commands = t,
                    1 => p.commands = t,
                    _ => p.post_commands = t,
                }
                *ph = Some(ops);
            }
        }
        out.push(Pk { p, root, ver, phases });
    }
    out
}

pub fn model(base: &Map, pk: &[Pk], cfg: &ContextConfig) -> Option<Act> {
    let mut a = Act { vars: base.clone(), ..Default::default() };
    for k in pk {
        a.vars.insert(format!("{}_ROOT", k.p.name.to_uppercase()), k.root.clone());
        if let Some(v) = &k.ver {
            a.vars.insert(format!("{}_VERSION", k.p.name.to_uppercase()), v.clone());
        }
    }
    'all: for ph in 0..3 {
        for k in pk {
            let Some(ops) = &k.phases[ph] else { continue };
            if ops.iter().any(|o| matches!(o, Op::Bad)) {
                return None;
            }
            let refs = refs_of(&k.p.name, &k.root, k.ver.as_deref());
            for o in ops {
                a.run(o, &|t| expand(t, &refs));
                if a.stopped {
                    break 'all;
                }
            }
        }
    }
    for (k, v) in &cfg.additional_env_vars {
        a.vars.insert(k.clone(), v.clone());
    }
    let mut dirs: Vec<String> = vec![];
    for k in pk.iter().filter(|k| !k.p.tools.is_empty()) {
        let root = Path::new(&k.root);
        let direct = k.p.tools.iter().any(|t| ["", ".exe", ".bat", ".cmd", ".com"].iter().any(|e| root.join(format!("{t}{e}")).is_file()));
        let d = if direct { k.root.clone() } else { root.join("bin").to_string_lossy().into_owned() };
        if !dirs.contains(&d) {
            dirs.push(d);
        }
    }
    if !dirs.is_empty() && cfg.path_strategy != PathStrategy::NoModify {
        let seg = dirs.join(":");
        let old = a.vars.get("PATH").cloned().unwrap_or_default();
        let new = match cfg.path_strategy {
            PathStrategy::Prepend if !old.is_empty() => format!("{seg}:{old}"),
            PathStrategy::Append if !old.is_empty() => format!("{old}:{seg}"),
            _ => seg,
        };
        a.vars.insert("PATH".into(), new);
    }
    for u in &cfg.unset_vars {
        a.vars.remove(u);
    }
    if let Some(p) = a.vars.get_mut("PATH") {
        let mut seen: Vec<&str> = vec![];
        for e in p.split(':') {
            if !seen.contains(&e) {
                seen.push(e);
            }
        }
        let j = seen.join(":");
        *p = j;
    }
    Some(a)
}

fn sorted(h: &HashMap<String, String>) -> Map {
    h.iter().map(|(a, b)| (a.clone(), b.clone())).collect()
}

pub fn diff(a: &Map, b: &Map) -> Value {
    let mut d = vec![];
    for k in a.keys().chain(b.keys()).collect::<std::collections::BTreeSet<_>>() {
        if a.get(k) != b.get(k) {
            d.push(json!({"name": k, "expected": a.get(k), "got": b.get(k)}));
        }
    }
    json!(d)
}

fn gen_cfg(r: &mut Rng) -> ContextConfig {
    let mut c = ContextConfig {
        path_strategy: r.pick(&[PathStrategy::Prepend, PathStrategy::Prepend, PathStrategy::Append, PathStrategy::Replace, PathStrategy::NoModify]).clone(),
        ..Default::default()
    };
    for _ in 0..r.below(3) {
        c.additional_env_vars.insert(r.pick(VARS).to_string(), value(r));
    }
    for _ in 0..r.below(3) {
        c.unset_vars.push(r.pick(&["A", "PATH", "NOT_THERE", "BASE", "B"]).to_string());
    }
    c
}

pub fn e01(m: &mut Mon) {
    m.describe(
        "generated resolves are turned into environments by the real code; the variables, aliases, startup commands, sourced scripts and messages are compared with an independent interpreter of the documented command language",
        &["POSIX path separator", "package names are identifiers"],
        4000,
    );
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = m.rng(1);
    unsafe {
        std::env::set_var("REZMON_PARENT", "parent value");
    }
    for i in 0..m.size(2500, 16) {
        if m.full() || m.out_of_time() {
            break;
        }
        let dir = fresh("env");
        let bad = i % 8 == 7;
        let pk = gen_packages(&mut r, &dir, bad);
        let mut cfg = gen_cfg(&mut r);
        let mut base = Map::new();
        let mode = i % 4;
        let mgr = if mode < 2 {
            for v in VARS.iter().chain(&["BASE", "EMPTY"]) {
                if r.chance(1, 3) {
                    base.insert(v.to_string(), r.pick(&["", "base", "/usr/bin:/bin:/usr/bin", "/a::b", "{root}", ":"]).to_string());
                }
            }
            EnvironmentManager::with_base_environment(cfg.clone(), base.clone().into_iter().collect())
        } else {
            cfg.inherit_parent_env = mode == 3;
            if mode == 3 {
                base = std::env::vars().collect();
            }
            EnvironmentManager::new(cfg.clone())
        };
        let packages: Vec<Package> = pk.iter().map(|k| k.p.clone()).collect();
        let inp = || json!({"packages": pk.iter().map(|k| json!({"name": k.p.name, "version": k.ver, "root": k.root, "tools": k.p.tools, "pre": k.p.pre_commands, "commands": k.p.commands, "post": k.p.post_commands})).collect::<Vec<_>>(), "base": base, "config": serde_json::to_value(&cfg).unwrap()});
        crumb(inp().to_string());
        let want = model(&base, &pk, &cfg);
        let Some(got) = m.guard("environment generation never panics", inp, || rt.block_on(mgr.generate_rex_environment(&packages))) else { continue };
        m.seen(&inp().to_string());
        match (got, want) {
            (Ok(g), Some(w)) => {
                let gv = sorted(&g.vars);
                m.check("variables are those the commands define", gv == w.vars, || json!({"input": inp(), "difference": diff(&w.vars, &gv)}));
                m.check("aliases are those the commands define", sorted(&g.aliases) == w.aliases, || json!({"input": inp(), "expected": w.aliases, "got": sorted(&g.aliases)}));
                let ok = g.startup_commands == w.cmds && g.sourced_scripts == w.srcs && g.info_messages == w.info && g.stopped == w.stopped && g.stop_message == w.stop_msg;
                m.check("startup actions are kept in order up to a stop", ok, || json!({"input": inp(), "expected": format!("{w:?}"), "got": format!("{g:?}")}));
                m.count("activations", 1);
                m.count("commands interpreted", pk.iter().flat_map(|k| k.phases.iter().flatten()).map(|o| o.len() as u64).sum());
                if w.stopped {
                    m.count("activations stopped early", 1);
                }
                // the same resolve gives the same environment again, through the plain entry point too
                let again = rt.block_on(mgr.generate_environment(&packages)).map(|e| sorted(&e)).ok();
                m.check("generation is repeatable", again.as_ref() == Some(&gv), || json!({"input": inp()}));
                if mode >= 2 {
                    let mut c = ResolvedContext::from_requirements(vec![]);
                    c.config = cfg.clone();
                    c.resolved_packages = packages.clone();
                    let ok = rt.block_on(c.generate_environment()).is_ok() && sorted(&c.environment_vars) == gv;
                    m.check("a context holds the same environment", ok, || json!({"input": inp(), "difference": diff(&gv, &sorted(&c.environment_vars))}));
                    if mode == 2 {
                        m.check("nothing of the parent leaks into an isolated environment", !gv.contains_key("REZMON_PARENT") && !gv.contains_key("HOME"), || inp());
                    }
                }
                let d = mgr.get_env_diff(&g.vars);
                let mut back = base.clone();
                for (k, v) in &d.added {
                    if back.insert(k.clone(), v.clone()).is_some() {
                        m.check("differences classify additions", false, || json!({"name": k, "input": inp()}));
                    }
                }
                for (k, (o, n)) in &d.modified {
                    let old = back.insert(k.clone(), n.clone());
                    if old.as_ref() != Some(o) || o == n {
                        m.check("differences classify changes", false, || json!({"name": k, "input": inp()}));
                    }
                }
                for k in &d.removed {
                    if back.remove(k).is_none() {
                        m.check("differences classify removals", false, || json!({"name": k, "input": inp()}));
                    }
                }
                m.check("applying the differences to the base gives the environment", back == gv && d.change_count() == d.added.len() + d.modified.len() + d.removed.len() && d.is_empty() == (back == base), || json!({"input": inp(), "difference": diff(&gv, &back)}));
            }
            (Err(_), None) => {
                m.check("unsupported commands are refused", true, || Value::Null);
            }
            (Ok(g), None) => {
                // a stop in an earlier phase may legitimately hide the unsupported line
                if g.stopped {
                    m.inconclusive("stopped before the unsupported command");
                } else {
                    m.check("unsupported commands are refused", false, inp);
                }
            }
            (Err(e), Some(_)) => {
                m.check("supported commands are accepted", false, || json!({"input": inp(), "error": e.to_string()}));
            }
        }
        // the executor alone, one package at a time and accumulating over phases
        for k in &pk {
            for ph in 0..3 {
                let Some(ops) = &k.phases[ph] else { continue };
                if ops.iter().any(|o| matches!(o, Op::Bad)) {
                    continue;
                }
                let text = [&k.p.pre_commands, &k.p.commands, &k.p.post_commands][ph].clone().unwrap();
                let mut x = RexExecutor::new();
                let Some(Ok(e)) = m.guard("execution of commands never panics", || json!(text), || x.execute_commands(&text, &k.p.name, Some(&k.root), k.ver.as_deref())) else {
                    m.check("supported commands are accepted", false, || json!(text));
                    continue;
                };
                let refs = refs_of(&k.p.name, &k.root, k.ver.as_deref());
                let mut a = Act::default();
                for o in ops {
                    a.run(o, &|t| expand(t, &refs));
                    if a.stopped {
                        break;
                    }
                }
                m.check("the executor alone agrees", sorted(&e.vars) == a.vars && sorted(&e.aliases) == a.aliases && e.stopped == a.stopped && e.startup_commands == a.cmds, || json!({"commands": text, "root": k.root, "expected": format!("{a:?}"), "got": format!("{e:?}")}));
            }
        }
        if i == 0 {
            m.sample(inp());
        }
        rm(&dir);
    }
    // damaged command texts never panic
    for _ in 0..m.size(3000, 10) {
        let mut ops = vec![];
        let mut t: Vec<char> = (0..r.range(1, 4)).map(|_| line(&mut r, &mut ops, true)).collect::<Vec<_>>().join("\n").chars().collect();
        for _ in 0..r.range(1, 4) {
            if t.is_empty() {
                break;
            }
            let k = r.below(t.len());
            match r.below(3) {
                0 => {
                    t.remove(k);
                }
                1 => t.insert(k, *r.pick(&['\'', '"', '(', ')', '{', '$', ',', '\u{0}', 'é', '\n'])),
                _ => t.truncate(k),
            }
        }
        let t: String = t.into_iter().collect();
        crumb(t.clone());
        m.guard("execution of commands never panics", || json!(t), || RexExecutor::new().execute_commands(&t, "p", Some("/r"), Some("1.2")).is_ok());
        m.count("damaged command texts", 1);
    }
}

// ---------------------------------------------------------------- E02
fn hostile(r: &mut Rng, trip: &str, nl: bool) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 4) {
        let t = match r.below(22) {
            0 => format!("$(touch {trip})"),
            1 => format!("`touch {trip}`"),
            2 => format!("\"; touch {trip}; echo \""),
            3 => format!("'; touch {trip}; echo '"),
            4 if nl => format!("\ntouch {trip}\n"),
            5 => format!("; touch {trip} #"),
            6 => format!("& touch {trip} &"),
            7 => format!("\\\"; touch {trip}; \\\""),
            8 => format!("\\`touch {trip}\\`"),
            9 => format!("\\$(touch {trip})"),
            10 => format!("$(<{trip})"),
            11 => format!("| touch {trip}"),
            12 => "\\".into(),
            13 => "\\\\".into(),
            14 => "\"".into(),
            15 => "'".into(),
            16 => "!history !!".into(),
            17 => "a b\tc".into(),
            18 => "/usr/bin:/bin".into(),
            19 => r.pick(&["é日本", "\u{2019}; touch x; \u{2018}", "\u{201d}; touch x; \u{201c}", "", "$(1)"]).to_string(),
            20 => "*?[a-z]~{a,b}".into(),
            _ => "plain".into(),
        };
        s.push_str(&t);
    }
    s
}

fn bash(script: &Path, tail: &str, dir: &Path) -> Option<(Map, Vec<String>)> {
    // prints the environment, then the aliases, NUL separated
    let out = std::process::Command::new("/bin/bash")
        .args(["--norc", "--noprofile", "-c"])
        .arg(format!(
            "shopt -s expand_aliases; source \"$0\" >/dev/null 2>/dev/null; {tail}; printf '%s\\0' ALIASES; for k in \"${{!BASH_ALIASES[@]}}\"; do printf '%s=%s\\0' \"$k\" \"${{BASH_ALIASES[$k]}}\"; done; printf '%s\\0' ENV; exec /usr/bin/env -0"
        ))
        .arg(script)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("PRESET", "pre set")
        .current_dir(dir)
        .stdin(std::process::Stdio::null())
        .output()
        .ok()?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let parts: Vec<&str> = text.split('\0').collect();
    let a = parts.iter().position(|p| *p == "ALIASES")?;
    let e = parts.iter().position(|p| *p == "ENV")?;
    let al = parts[a + 1..e].iter().map(|s| s.to_string()).collect();
    let env = parts[e + 1..].iter().filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
    Some((env, al))
}

/// The statements of a fish or PowerShell script as lists of words with quoting undone; None if a
/// word would expand or run something. References `$NAME` in double quotes are kept when allowed.
fn words(text: &str, fish: bool, refs: bool) -> Option<Vec<Vec<String>>> {
    let single = |c: char| c == '\'' || (!fish && ('\u{2018}'..='\u{201b}').contains(&c));
    let double = |c: char| c == '"' || (!fish && ('\u{201c}'..='\u{201e}').contains(&c));
    let t: Vec<char> = text.chars().collect();
    let at = |i: usize| t.get(i).copied();
    let mut out = vec![];
    let mut line: Vec<String> = vec![];
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if c == '\n' || c == ';' || c == '\r' {
            if !line.is_empty() {
                out.push(std::mem::take(&mut line));
            }
            i += 1;
            continue;
        }
        if c == ' ' || c == '\t' {
            i += 1;
            continue;
        }
        if c == '#' {
            while i < t.len() && t[i] != '\n' {
                i += 1;
            }
            continue;
        }
        let mut w = String::new();
        while let Some(c) = at(i).filter(|c| !matches!(c, ' ' | '\t' | '\n' | '\r' | ';')) {
            i += 1;
            if single(c) {
                loop {
                    let c = at(i)?;
                    i += 1;
                    if fish && c == '\\' && matches!(at(i), Some('\\' | '\'')) {
                        w.push(at(i)?);
                        i += 1;
                    } else if single(c) {
                        if fish || !at(i).is_some_and(single) {
                            break;
                        }
                        i += 1;
                        w.push(c);
                    } else {
                        w.push(c);
                    }
                }
            } else if double(c) {
                loop {
                    let c = at(i)?;
                    i += 1;
                    if fish && c == '\\' {
                        match at(i)? {
                            '\n' => i += 1,
                            n @ ('\\' | '"' | '$') => {
                                w.push(n);
                                i += 1;
                            }
                            _ => w.push(c),
                        }
                    } else if !fish && c == '`' {
                        w.push(match at(i)? {
                            'n' => '\n',
                            't' => '\t',
                            'r' => '\r',
                            '0' | 'a' | 'b' | 'e' | 'f' | 'v' | 'u' => return None,
                            n => n,
                        });
                        i += 1;
                    } else if double(c) {
                        if fish || !at(i).is_some_and(double) {
                            break;
                        }
                        i += 1;
                        w.push(c);
                    } else if c == '$' {
                        if !refs || !at(i).is_some_and(|n| n.is_ascii_alphabetic() || n == '_') {
                            return None;
                        }
                        w.push(c);
                    } else {
                        w.push(c);
                    }
                }
            } else if c == if fish { '\\' } else { '`' } {
                w.push(at(i)?);
                i += 1;
            } else if c == '(' || (fish && c == '$') || c == '|' || c == '&' {
                return None;
            } else {
                w.push(c);
            }
        }
        line.push(w);
    }
    if !line.is_empty() {
        out.push(line);
    }
    Some(out)
}
/// variables set by a script that does nothing else
fn settings(text: &str, fish: bool) -> Option<Map> {
    let mut out = Map::new();
    for st in words(text, fish, false)? {
        match st.iter().map(|x| x.as_str()).collect::<Vec<_>>()[..] {
            ["set", "-x" | "-gx", n, v] if fish => out.insert(n.to_string(), v.to_string()),
            [n, "=", v] if !fish => out.insert(n.strip_prefix("$env:")?.to_string(), v.to_string()),
            _ => return None,
        };
    }
    Some(out)
}

pub fn e02(m: &mut Mon) {
    m.describe(
        "activation scripts generated by the real code from hostile environments are sourced by a real bash (as an unprivileged user, in a scratch directory, with trip-wire commands in the values); the resulting environment, aliases and command order are compared with the input; fish and PowerShell texts are read by a small lexer",
        &["variable and alias names are identifiers", "in rex scripts a $NAME reference is meant to expand", "fish and PowerShell are not installed: their quoting rules are applied by a lexer"],
        2000,
    );
    let mut r = m.rng(1);
    let dir = fresh("sh");
    let trip = dir.join("TRIPPED");
    let tp = trip.to_string_lossy().into_owned();
    let names = ["A", "B2", "_x", "PYTHONPATH", "MAYA_ROOT", "Z", "lower"];
    for i in 0..m.size(500, 20) {
        if m.full() || m.out_of_time() {
            break;
        }
        let mut vars = HashMap::new();
        for n in names {
            if r.chance(1, 2) {
                vars.insert(n.to_string(), hostile(&mut r, &tp, true));
            }
        }
        let inp = json!(sorted(&vars));
        m.seen(&inp.to_string());
        let check = |m: &mut Mon, what: &str, text: &str, want: &Map, al: Option<&Map>| {
            let f = dir.join("s.sh");
            std::fs::write(&f, text).unwrap();
            let _ = std::fs::remove_file(&trip);
            let Some((env, aliases)) = bash(&f, ":", &dir) else {
                m.check(&format!("{what}: the script can be sourced"), false, || json!({"script": text}));
                return;
            };
            m.count("scripts sourced by bash", 1);
            m.check(&format!("{what}: values never run as commands"), !trip.exists(), || json!({"script": text, "input": inp}));
            let got: Map = env.into_iter().filter(|(k, _)| !["_", "PWD", "SHLVL", "OLDPWD", "PATH", "PRESET"].contains(&k.as_str())).collect();
            m.check(&format!("{what}: bash ends with exactly the given values"), got == *want, || json!({"script": text, "difference": diff(want, &got)}));
            if let Some(al) = al {
                let got: Map = aliases.iter().filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
                m.check(&format!("{what}: aliases are defined exactly"), got == *al, || json!({"script": text, "difference": diff(al, &got)}));
            }
        };
        // the context's own scripts: every value literal
        for v in vars.values_mut() {
            if r.chance(1, 3) {
                v.push_str(r.pick(&["$HOME", "${PRESET}", "$$", "$PRESET/x", "$((1+1))", "${x:-$(touch TRIPPED)}", "$"]));
            }
        }
        let want = sorted(&vars);
        for sh in [ShellType::Bash, ShellType::Zsh, ShellType::Fish, ShellType::PowerShell] {
            let mgr = EnvironmentManager::new(ContextConfig { shell_type: sh.clone(), ..Default::default() });
            let mut c = ResolvedContext::from_requirements(vec![]);
            c.environment_vars = vars.clone();
            for (what, t) in [("context script", mgr.generate_shell_script(&vars)), ("exported context", ContextSerializer::export_context(&c, ExportFormat::Shell(sh.clone())))] {
                let Ok(t) = t else {
                    m.check("a script is generated", false, || json!(want));
                    continue;
                };
                match sh {
                    ShellType::Bash | ShellType::Zsh => check(m, what, &t, &want, None),
                    ShellType::Fish => {
                        let got = settings(&t, true);
                        m.check("fish text holds exactly the given values", got.as_ref() == Some(&want), || json!({"script": t, "difference": diff(&want, &got.clone().unwrap_or_default())}));
                    }
                    _ => {
                        let got = settings(&t, false);
                        m.check("PowerShell text holds exactly the given values", got.as_ref() == Some(&want), || json!({"script": t, "difference": diff(&want, &got.clone().unwrap_or_default())}));
                    }
                }
            }
        }
        // rex activation scripts
        let mut e = RexEnvironment::new();
        let mut want = Map::new();
        for n in names {
            if r.chance(1, 2) {
                let mut v = hostile(&mut r, &tp, true);
                let mut w = v.clone();
                if r.chance(1, 4) {
                    v.push_str("/$PRESET/x");
                    w.push_str("/pre set/x");
                }
                // a value ending in a lone dollar sign, or one before a space, is literal
                e.vars.insert(n.into(), v);
                want.insert(n.into(), w);
            }
        }
        let mut al = Map::new();
        for n in ["t1", "my-tool", "go_x", "t2"] {
            if r.chance(1, 2) {
                let v = hostile(&mut r, &tp, true);
                e.aliases.insert(n.into(), v.clone());
                al.insert(n.into(), v);
            }
        }
        let mut log = String::new();
        for c in (0..r.below(4)).rev() {
            e.startup_commands.push(format!("export CMD_LOG=\"${{CMD_LOG}}<{c}>\""));
            log.push_str(&format!("<{c}>"));
        }
        for c in 0..r.below(3) {
            let f = dir.join(format!("s {c} {}", r.pick(&["x", "q\"q", "$(touch TRIPPED)", "`touch TRIPPED`", "a'b", "é"])));
            std::fs::write(&f, format!("export CMD_LOG=\"${{CMD_LOG}}<src{c}>\"\n")).unwrap();
            e.sourced_scripts.push(f.to_string_lossy().into_owned());
            log.push_str(&format!("<src{c}>"));
        }
        for _ in 0..r.below(3) {
            e.info_messages.push(hostile(&mut r, &tp, true));
        }
        if !log.is_empty() {
            want.insert("CMD_LOG".into(), log);
        }
        let t = rez_next_rex::generate_shell_script(&e, r.pick(&[rez_next_rex::ShellType::Bash, rez_next_rex::ShellType::Zsh]));
        check(m, "rex script", &t, &want, Some(&al));
        // the same for fish and PowerShell, read by the rules of those shells
        e.startup_commands = (0..r.below(5)).map(|c| format!("run_me {}", 9 - c)).collect();
        for fish in [true, false] {
            if !fish {
                // single quotes keep a reference literal there: not judged
                e.vars.values_mut().for_each(|v| *v = v.replace("/$PRESET/x", ""));
            }
            let t = rez_next_rex::generate_shell_script(&e, if fish { &rez_next_rex::ShellType::Fish } else { &rez_next_rex::ShellType::PowerShell });
            let mut want: Vec<Vec<String>> = vec![];
            let w = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
            for (k, v) in sorted(&e.vars) {
                want.push(if fish { w(&["set", "-gx", &k, &v]) } else { w(&[&format!("$env:{k}"), "=", &v]) });
            }
            for (k, v) in sorted(&e.aliases) {
                want.push(if fish { w(&["alias", &k, &v]) } else { w(&["Set-Alias", "-Name", &k, "-Value", &v]) });
            }
            want.extend(e.startup_commands.iter().map(|c| c.split(' ').map(|x| x.to_string()).collect()));
            want.extend(e.sourced_scripts.iter().map(|c| w(&[if fish { "source" } else { "." }, c])));
            let got = words(&t, fish, true);
            let name = if fish { "fish" } else { "PowerShell" };
            m.check(&format!("a rex {name} script sets, defines, runs and sources exactly what it should, in order"), got.as_ref() == Some(&want), || {
                let first = got.as_ref().and_then(|g| g.iter().zip(&want).find(|(a, b)| a != b).map(|(a, b)| json!({"got": a, "want": b})));
                json!({"script": t, "first difference": first})
            });
        }
        if i == 0 {
            m.sample(json!({"values": want}));
        }
    }
}

// ---------------------------------------------------------------- E03
fn env0(out: &str) -> Map {
    out.split('\u{1}').filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).filter(|(k, _)| !["_", "PWD", "SHLVL", "OLDPWD"].contains(&k.as_str())).collect()
}

/// child:shell SPEC: an interactive shell of a context, on this process's own input
pub fn child_shell(args: &[String]) -> i32 {
    let v: Value = serde_json::from_str(&args[0]).unwrap();
    let map = |k: &str| v[k].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect::<HashMap<_, _>>();
    let mut c = ResolvedContext::from_requirements(vec![]);
    c.environment_vars = map("env");
    let cfg = ExecutionConfig { shell_type: ShellType::Bash, working_directory: v["wd"].as_str().map(Into::into), inherit_parent_env: v["inherit"].as_bool().unwrap(), additional_env_vars: map("extra"), timeout_seconds: 60, capture_output: true };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    i32::from(rt.block_on(ContextExecutor::with_config(c, cfg).start_interactive_shell()).is_err())
}

pub fn e03(m: &mut Mon) {
    m.describe(
        "commands, scripts, batches and processes are run through the real executors; the environment, working directory, exit status and output each process reports are compared with the context, and timed-out commands are watched for effects after the timeout",
        &["bash is the shell", "runs as an unprivileged user in a scratch directory"],
        300,
    );
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let mut r = m.rng(1);
    unsafe { std::env::set_var("REZMON_PARENT", "parent") };
    let dir = fresh("ex");
    let show = "/usr/bin/env -0 | /usr/bin/tr '\\0' '\\1'";
    for i in 0..m.size(60, 25) {
        if m.full() || m.out_of_time() {
            break;
        }
        let mut c = ResolvedContext::from_requirements(vec![]);
        for n in ["A", "B", "X_Y", "REZMON_PARENT", "HOME", "PATH"] {
            if r.chance(1, 2) {
                c.environment_vars.insert(n.into(), hostile(&mut r, "TRIPPED", true));
            }
        }
        c.resolved_packages.push(Package::new("maya".into()));
        if r.chance(1, 2) {
            c.environment_vars.insert("MAYA_ROOT".into(), "/m".into());
        }
        let inherit = r.chance(1, 2);
        let mut extra = HashMap::new();
        for n in ["A", "EXTRA"] {
            if r.chance(1, 2) {
                extra.insert(n.to_string(), hostile(&mut r, "TRIPPED", true));
            }
        }
        let wd = dir.join(format!("wd {i}"));
        std::fs::create_dir_all(&wd).unwrap();
        let use_wd = r.chance(2, 3);
        if i % 6 == 3 {
            // nothing of its own: what is not inherited must not be there either
            c.environment_vars.clear();
            extra.clear();
        }
        // a working directory may be given relative to the current one
        let rel: std::path::PathBuf = match (i % 4 == 1, std::env::current_dir().unwrap().components().count()) {
            (true, n) => (1..n).map(|_| "..").collect::<std::path::PathBuf>().join(wd.strip_prefix("/").unwrap()),
            _ => wd.clone(),
        };
        let mut want: Map = if inherit { std::env::vars().collect() } else { Map::new() };
        want.extend(sorted(&c.environment_vars));
        want.extend(sorted(&extra));
        want.retain(|k, _| !["_", "PWD", "SHLVL", "OLDPWD"].contains(&k.as_str()));
        let cfg = ExecutionConfig { shell_type: ShellType::Bash, working_directory: use_wd.then(|| rel.clone()), inherit_parent_env: inherit, additional_env_vars: extra.clone(), timeout_seconds: 60, capture_output: true };
        let inp = json!({"context": sorted(&c.environment_vars), "extra": sorted(&extra), "inherit": inherit, "working_directory": use_wd});
        m.seen(&inp.to_string());
        // through the constructor, or by reconfiguring an executor made with other settings
        let x = if r.chance(1, 2) {
            ContextExecutor::with_config(c.clone(), cfg.clone())
        } else {
            let mut x = ContextExecutor::with_config(c.clone(), ExecutionConfig { shell_type: ShellType::Bash, additional_env_vars: [("STALE".to_string(), "1".to_string())].into(), inherit_parent_env: !inherit, timeout_seconds: 1, ..Default::default() });
            x.set_config(cfg.clone());
            x
        };
        let here = if use_wd { wd.clone() } else { std::env::current_dir().unwrap() };
        let same = |got: &Map| {
            let mut got = got.clone();
            // without a PATH bash supplies its default to itself only; it is not exported
            got.retain(|k, _| k != "PATH" || want.contains_key("PATH"));
            got == want
        };
        // plain command
        let code = r.below(200);
        let big = if r.chance(1, 4) { 300000 } else { 3 };
        let cmd = format!("{show}; printf '\\1CWD=%s\\1' \"$(pwd -P)\"; printf 'e%.0s' {{1..{big}}} >&2; exit {code}");
        let Ok(res) = rt.block_on(x.execute(&cmd)) else {
            m.check("a command is run", false, || inp.clone());
            continue;
        };
        m.count("processes observed", 1);
        let mut got = env0(&res.stdout);
        let cwd = got.remove("CWD").unwrap_or_default();
        m.check("a command sees exactly the context's environment", same(&got), || json!({"input": inp, "difference": diff(&want, &got)}));
        m.check("a command runs in the working directory", Path::new(&cwd) == here.canonicalize().unwrap(), || json!({"input": inp, "cwd": cwd}));
        m.check("exit status and output are reported whole", res.exit_code == code as i32 && res.stderr == "e".repeat(big) && res.is_success() == (code == 0), || json!({"expected": code, "got": res.exit_code, "stderr": res.stderr.len()}));
        m.check("an executor reports the settings it runs with", x.get_config().working_directory == cfg.working_directory && x.get_config().timeout_seconds == 60 && x.get_execution_stats().env_var_count == c.environment_vars.len(), || inp.clone());
        // output is reported byte for byte
        let raw = *r.pick(&["a\r\nb\r\n", "\r\n", " \t x \n\n", "é日本\u{0}z", "last line", "\u{1b}[31mred\u{1b}[0m"]);
        let lit = raw.bytes().map(|b| format!("\\x{b:02x}")).collect::<String>();
        let text = format!("printf '{lit}'; printf '{lit}' >&2");
        let osp = dir.join("out.sh");
        std::fs::write(&osp, &text).unwrap();
        for (what, res) in [("command", rt.block_on(x.execute(&text))), ("script", rt.block_on(x.execute_script(&osp)))] {
            let got = res.map(|r| (r.stdout, r.stderr)).unwrap_or_default();
            m.check("output is reported byte for byte", got == (raw.to_string(), raw.to_string()), || json!({"kind": what, "expected": raw, "got": got}));
        }
        let got = rt.block_on(async { x.spawn_process("/bin/bash", &["-c".to_string(), text.clone()]).await?.wait().await }).map(|r| (r.stdout, r.stderr)).unwrap_or_default();
        m.check("output is reported byte for byte", got == (raw.to_string(), raw.to_string()), || json!({"kind": "process", "expected": raw, "got": got}));
        // in the background
        if i % 3 == 0 {
            let f = dir.join(format!("bg{i}"));
            let bg = format!("{{ {show}; printf '\\1CWD=%s\\1' \"$(pwd -P)\"; }} > '{0}.t'; /bin/mv '{0}.t' '{0}'", f.display());
            let ok = rt.block_on(x.execute_background(&bg)).is_ok();
            for _ in 0..1500 {
                if f.exists() {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(10));
            }
            let mut got = env0(&std::fs::read_to_string(&f).unwrap_or_default());
            let cwd = got.remove("CWD").unwrap_or_default();
            m.check("a background command sees exactly the context's environment and directory", ok && same(&got) && Path::new(&cwd) == here.canonicalize().unwrap(), || json!({"input": inp, "cwd": cwd, "difference": diff(&want, &got)}));
        }
        // interactively, in a process of its own
        if i % 5 == 2 {
            let f = dir.join(format!("int{i}"));
            let stdin = dir.join("stdin");
            std::fs::write(&stdin, format!("{{ {show}; printf '\\1CWD=%s\\1' \"$(pwd -P)\"; }} > '{}'\nexit {}\n", f.display(), code % 3)).unwrap();
            let spec = json!({"env": sorted(&c.environment_vars), "extra": sorted(&extra), "inherit": inherit, "wd": use_wd.then(|| rel.clone())});
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["child:shell", &spec.to_string()])
                .stdin(std::fs::File::open(&stdin).unwrap())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status();
            let mut got = env0(&std::fs::read_to_string(&f).unwrap_or_default());
            let cwd = got.remove("CWD").unwrap_or_default();
            m.check("an interactive shell sees exactly the context's environment and directory", same(&got) && Path::new(&cwd) == here.canonicalize().unwrap(), || json!({"input": inp, "cwd": cwd, "difference": diff(&want, &got)}));
            m.check("a failed interactive shell is an error", st.ok().and_then(|s| s.code()) == Some(i32::from(code % 3 != 0)), || json!({"code": code % 3}));
        }
        // what exists
        if i % 4 == 0 {
            let t = fresh("tools");
            std::fs::write(t.join("rezmon_tool"), "#!/bin/sh\n").unwrap();
            std::fs::write(t.join("rezmon two"), "#!/bin/sh\n").unwrap();
            for n in ["rezmon_tool", "rezmon two"] {
                std::fs::set_permissions(t.join(n), std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
            }
            let mut c2 = c.clone();
            c2.environment_vars.insert("PATH".into(), t.display().to_string());
            let mut f2 = cfg.clone();
            f2.additional_env_vars.remove("PATH");
            let x2 = ContextExecutor::with_config(c2, f2);
            for (n, w) in [("rezmon_tool", true), ("rezmon_absent", false), ("rezmon_absent rezmon_tool", false), ("rezmon two", true), ("rezmon_absent; printf x > TRIPPED; printf y", false), ("$(printf x > TRIPPED; printf rezmon_tool)", false), ("", false)] {
                let got = rt.block_on(x2.command_exists(n));
                m.check("a tool exists exactly when the context's PATH has it", got == w, || json!({"tool": n, "expected": w, "input": inp}));
            }
            rm(&t);
        }
        // killed by a signal is not success
        if i % 5 == 0 {
            let ks = vec!["-c".to_string(), "kill -9 $$".to_string()];
            let res = rt.block_on(async { x.spawn_process("/bin/bash", &ks).await?.wait().await });
            m.check("a killed process is not a success", res.map(|r| r.exit_code != 0 && !r.is_success()).unwrap_or(true), || inp.clone());
            std::fs::write(&osp, "kill -9 $$").unwrap();
            m.check("a killed script is not a success", rt.block_on(x.execute_script(&osp)).map(|r| r.exit_code != 0 && !r.is_success()).unwrap_or(true), || inp.clone());
            m.check("a program that is not there is an error", rt.block_on(x.spawn_process("/nonexistent/prog", &[])).is_err(), || inp.clone());
            let res = rt.block_on(x.execute("kill -9 $$")).map(|r| r.exit_code).unwrap_or(-1);
            m.check("a killed command is not a success", res != 0, || inp.clone());
        }
        // script
        let sp = dir.join(format!("scr ipt{i}.sh"));
        std::fs::write(&sp, &cmd).unwrap();
        if let Ok(res) = rt.block_on(x.execute_script(&sp)) {
            let mut got = env0(&res.stdout);
            let cwd = got.remove("CWD").unwrap_or_default();
            m.check("a script sees exactly the context's environment", same(&got) && Path::new(&cwd) == here.canonicalize().unwrap() && res.exit_code == code as i32, || json!({"input": inp, "difference": diff(&want, &got)}));
        } else {
            m.check("a script is run", false, || inp.clone());
        }
        m.check("a missing script is an error", rt.block_on(x.execute_script(&dir.join("absent.sh"))).is_err(), || Value::Null);
        // process
        match rt.block_on(async { x.spawn_process("/usr/bin/env", &["-0".to_string()]).await?.wait().await }) {
            Ok(res) => {
                let got = env0(&res.stdout.replace('\0', "\u{1}"));
                m.check("a spawned process sees exactly the context's environment", got == want, || json!({"input": inp, "difference": diff(&want, &got)}));
            }
            Err(e) => {
                m.check("a process is spawned", false, || json!({"input": inp, "error": e.to_string()}));
            }
        }
        let odd = vec!["-c".to_string(), "printf '%s|' \"$@\"; exit 7".to_string(), "x".to_string(), hostile(&mut r, "TRIPPED", true), "".to_string(), "a b".to_string()];
        if let Ok(res) = rt.block_on(async { x.spawn_process("/bin/bash", &odd).await?.wait().await }) {
            let w: String = odd[3..].iter().map(|a| format!("{a}|")).collect();
            m.check("process arguments and status are passed exactly", res.stdout == w && res.exit_code == 7 && !res.is_success(), || json!({"expected": w, "got": res.stdout}));
        }
        // batch: in order, each with its own result
        let order = wd.join("order");
        let n = r.range(1, 4);
        let die = r.below(6);
        let cmds: Vec<String> = (0..n).map(|k| format!("printf {k} >> '{}'; printf out{k}; {}", order.display(), if k == die { "kill -9 $$".to_string() } else { format!("exit {}", k * 3) })).collect();
        if let Ok(rs) = rt.block_on(x.execute_batch(&cmds)) {
            let ok = rs.len() == n && rs.iter().enumerate().all(|(k, q)| q.stdout == format!("out{k}") && if k == die { q.exit_code != 0 } else { q.exit_code == (k * 3) as i32 });
            let o = std::fs::read_to_string(&order).unwrap_or_default();
            m.check("a batch runs every command once, in order", ok && o == (0..n).map(|k| k.to_string()).collect::<String>(), || json!({"commands": cmds, "order": o}));
        }
        // package commands only for packages of the context
        for n in ["nuke", "MAYA", "Maya", "may", "maya2", "", "maya "] {
            m.check("a command for a package outside the context is refused", rt.block_on(x.execute_package_command(n, "printf x > SHOULD_NOT")).is_err() && !here.join("SHOULD_NOT").exists(), || json!({"package": n, "input": inp}));
        }
        if c.environment_vars.contains_key("MAYA_ROOT") {
            let got = rt.block_on(x.execute_package_command("maya", "printf in; exit 3")).map(|r| (r.stdout, r.exit_code)).unwrap_or_default();
            m.check("a command for a package of the context is run", got == ("in".to_string(), 3), || json!({"got": got, "input": inp}));
        }
        m.check("values of the environment never run", !here.join("TRIPPED").exists() && !dir.join("TRIPPED").exists(), || inp.clone());
        if i == 0 {
            m.sample(inp.clone());
        }
    }
    // concurrent executors stay independent
    let mut hs = vec![];
    for k in 0..m.size(40, 10) {
        let mut c = ResolvedContext::from_requirements(vec![]);
        c.environment_vars.insert("WHO".into(), format!("w{k}"));
        let x = ContextExecutor::with_config(c, ExecutionConfig { shell_type: ShellType::Bash, timeout_seconds: 60, ..Default::default() });
        hs.push(rt.spawn(async move {
            let a = x.execute("printf $WHO; /usr/bin/sleep 0.02; printf $WHO").await.map(|r| r.stdout);
            (k, a.unwrap_or_default())
        }));
    }
    for h in hs {
        let (k, s) = rt.block_on(h).unwrap();
        m.check("concurrent executions keep their own environment", s == format!("w{k}w{k}"), || json!({"worker": k, "out": s}));
    }
    // timeouts: reported, on time, and nothing runs on afterwards
    let mut hs = vec![];
    for k in 0..m.size(6, 4) {
        let mark = dir.join(format!("late{k}"));
        let script = dir.join(format!("late{k}.sh"));
        let body = format!("/usr/bin/sleep 10; /usr/bin/touch '{}'", mark.display());
        std::fs::write(&script, &body).unwrap();
        let short = ExecutionConfig { shell_type: ShellType::Bash, timeout_seconds: 1, ..Default::default() };
        let empty = ResolvedContext::from_requirements(vec![]);
        // the time may be given when the executor is made, later, or through the builder
        let x = match k / 2 % 3 {
            0 => ContextExecutor::with_config(empty, short),
            1 => {
                let mut x = ContextExecutor::with_config(empty, ExecutionConfig { shell_type: ShellType::Bash, timeout_seconds: 60, ..Default::default() });
                x.set_config(short);
                x
            }
            _ => ContextExecutionBuilder::new(empty).with_shell(ShellType::Bash).with_timeout(1).build(),
        };
        hs.push(rt.spawn(async move {
            let t = std::time::Instant::now();
            let r = if k % 2 == 0 { x.execute(&body).await } else { x.execute_script(&script).await };
            (mark, r.is_err(), t.elapsed())
        }));
    }
    let mut marks = vec![];
    for h in hs {
        let (mark, err, t) = rt.block_on(h).unwrap();
        m.check("a command over its time is reported as an error, in time", err && t.as_millis() > 900 && t.as_millis() < 4900, || json!({"elapsed_ms": t.as_millis() as u64}));
        m.count("timeouts observed", 1);
        marks.push(mark);
    }
    std::thread::sleep(std::time::Duration::from_millis(10500));
    for mark in marks {
        m.check("a timed out command does not run on", !mark.exists(), || json!({"mark": mark}));
    }
}

// ---------------------------------------------------------------- X01
fn texts(r: &mut Rng) -> String {
    hostile(r, "x", true) + r.pick(&["", "\u{1}", "null", "\r\n", "\u{2028}", "yes", "# c", "😀"])
}

fn gen_context(r: &mut Rng) -> ResolvedContext {
    let reqs: Vec<PackageRequirement> = (0..r.below(4)).filter_map(|_| PackageRequirement::parse(r.pick(&["maya", "maya-2024", "maya-2023", "nuke-2024", "nuke", "python-3.9+", "lib_a-1.2..2", "x==1.0", "py-1+<2", "foo-1|2"])).ok()).collect();
    let mut c = ResolvedContext::from_requirements(reqs);
    for _ in 0..r.below(4) {
        let mut p = crate::pkgs::package(r);
        p.filepath = r.chance(2, 3).then(|| format!("/repo/{}/{}/package.py", p.name, r.below(9)));
        c.resolved_packages.push(p);
    }
    if r.chance(1, 3) {
        c.id = r.pick(&["", "short", "é日本語テキスト", "1234567"]).to_string();
    }
    c.name = r.chance(1, 2).then(|| texts(r));
    c.suite = r.chance(1, 2).then(|| texts(r));
    c.platform = r.chance(1, 2).then(|| "linux".into());
    c.arch = r.chance(1, 2).then(|| texts(r));
    c.created_at = *r.pick(&[0, 1700000000, i64::MAX, -5]);
    c.status = r.pick(&[ContextStatus::Resolving, ContextStatus::Resolved, ContextStatus::Failed, ContextStatus::Cached]).clone();
    for _ in 0..r.below(5) {
        c.environment_vars.insert(texts(r), texts(r));
        c.metadata.insert(texts(r), texts(r));
    }
    c.config = gen_cfg(r);
    c.config.inherit_parent_env = r.chance(1, 2);
    c.config.shell_type = r.pick(&[ShellType::Bash, ShellType::Zsh, ShellType::Fish, ShellType::Cmd, ShellType::PowerShell]).clone();
    c.config.working_directory = r.chance(1, 2).then(|| format!("/w/{}", r.below(9)).into());
    c
}

fn cview(c: &ResolvedContext) -> Value {
    json!({
        "id": c.id, "name": c.name, "suite": c.suite, "platform": c.platform, "arch": c.arch, "created": c.created_at, "status": format!("{:?}", c.status),
        "requirements": c.requirements.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>(),
        "packages": c.resolved_packages.iter().map(|p| json!([crate::pkgs::view(p, rez_next_package::serialization::PackageFormat::Json), p.filepath, p.root()])).collect::<Vec<_>>(),
        "environment": sorted(&c.environment_vars), "metadata": sorted(&c.metadata),
        "config": [json!(c.config.inherit_parent_env), json!(format!("{:?}", c.config.shell_type)), json!(c.config.working_directory), json!(sorted(&c.config.additional_env_vars)), json!(c.config.unset_vars), json!(format!("{:?}", c.config.path_strategy))],
    })
}

fn vdiff(a: &Value, b: &Value) -> Value {
    let o = a.as_object().unwrap();
    json!(o.iter().filter(|(k, v)| b[k.as_str()] != **v).map(|(k, v)| json!({"field": k, "expected": v, "got": b[k.as_str()]})).collect::<Vec<_>>())
}

pub fn x01(m: &mut Mon) {
    m.describe(
        "generated contexts are saved and loaded through every form the code offers; every field, the locations of the packages and the environment generated from the loaded context are compared; damaged files and racing writers are observed",
        &["the package formats themselves are the subject of P02"],
        3000,
    );
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let mut r = m.rng(1);
    let dir = fresh("rxt");
    for i in 0..m.size(500, 16) {
        if m.full() || m.out_of_time() {
            break;
        }
        let c = gen_context(&mut r);
        let want = cview(&c);
        crumb(want.to_string());
        m.seen(&want.to_string());
        let mut forms: Vec<(String, Option<ResolvedContext>)> = vec![];
        for f in [ContextFormat::Json, ContextFormat::Binary] {
            let b = ContextSerializer::serialize(&c, f.clone()).ok();
            forms.push((format!("bytes {f:?}"), b.as_ref().and_then(|b| ContextSerializer::deserialize(b, f.clone()).ok())));
            let s = ContextSerializer::to_string(&c, f.clone()).ok();
            forms.push((format!("text {f:?}"), s.and_then(|s| ContextSerializer::from_string(&s, f.clone()).ok())));
            let p = dir.join(format!("sub{}/c{i}.{}", i % 3, f.extension()));
            let ok = rt.block_on(ContextSerializer::save_to_file(&c, &p, f.clone())).is_ok();
            forms.push((format!("file {f:?}"), ok.then(|| rt.block_on(ContextSerializer::load_from_file(&p)).ok()).flatten()));
            // damaged
            if let Some(b) = b {
                for _ in 0..4 {
                    let mut d = b.clone();
                    match r.below(3) {
                        0 => d.truncate(r.below(d.len())),
                        1 => {
                            let k = r.below(d.len());
                            d[k] = *r.pick(&[0u8, b'"', b'{', 0xff, b'9', b',']);
                        }
                        _ => {
                            let k = r.below(d.len());
                            d.remove(k);
                        }
                    }
                    let cut = d.len() < b.len() && b.starts_with(&d);
                    let got = m.guard("reading a damaged context never panics", || json!(String::from_utf8_lossy(&d)), || ContextSerializer::deserialize(&d, f.clone()).is_ok());
                    if cut {
                        m.check("a truncated context is an error", got == Some(false), || json!(String::from_utf8_lossy(&d)));
                    }
                    m.count("damaged contexts read", 1);
                }
                // text after the end, or bytes that are not text
                for tail in [&b"\0"[..], b"\0\0\0\0", b"x", b"}", b"{}", b"\xff", b"\xc3", b"\n#", b"AAAA"] {
                    let mut d = b.clone();
                    d.extend_from_slice(tail);
                    let got = m.guard("reading a damaged context never panics", || json!(String::from_utf8_lossy(&d)), || ContextSerializer::deserialize(&d, f.clone()).is_ok());
                    m.check("a context followed by something else is an error", got == Some(false), || json!({"format": format!("{f:?}"), "tail": tail}));
                    if i % 20 == 0 {
                        let p = dir.join(format!("tail.{}", f.extension()));
                        std::fs::write(&p, &d).unwrap();
                        m.check("a context followed by something else is an error", rt.block_on(ContextSerializer::load_from_file(&p)).is_err(), || json!({"format": format!("{f:?}"), "tail": tail}));
                    }
                }
            }
        }
        for (e, y) in [(ExportFormat::Json, false), (ExportFormat::Yaml, true)] {
            let s = ContextSerializer::export_context(&c, e).ok();
            forms.push((format!("export yaml={y}"), s.and_then(|s| if y { serde_yaml::from_str(&s).ok() } else { serde_json::from_str(&s).ok() })));
        }
        for (what, got) in forms {
            match got {
                Some(g) => {
                    let v = cview(&g);
                    m.check("a saved context loads as the same context", v == want, || json!({"form": what, "difference": vdiff(&want, &v)}));
                    m.check("a loaded context has the same fingerprint", g.get_fingerprint() == c.get_fingerprint(), || json!({"form": what, "context": want}));
                    if i % 10 == 0 {
                        let env = |c: &ResolvedContext| {
                            let mut c = c.clone();
                            c.config.inherit_parent_env = false;
                            rt.block_on(c.generate_environment()).ok().map(|_| sorted(&c.environment_vars))
                        };
                        m.check("a loaded context activates the same environment", env(&g) == env(&c), || json!({"form": what, "context": want}));
                    }
                }
                None => {
                    m.check("a saved context can be loaded", false, || json!({"form": what, "context": want}));
                }
            }
        }
        // what a context answers about itself
        let tools: Vec<String> = c.resolved_packages.iter().flat_map(|p| p.tools.clone()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        m.check("the tools of a context are its packages' tools, each once, in order", c.get_all_tools() == tools, || json!({"expected": tools, "got": c.get_all_tools()}));
        let other = gen_context(&mut r);
        let key = |c: &ResolvedContext| (c.requirements.iter().map(|q| q.to_string()).collect::<Vec<_>>(), c.platform.clone(), c.arch.clone(), c.config.inherit_parent_env);
        // a neighbour that differs in one thing only
        let mut near = c.clone();
        match r.below(5) {
            0 => near.config.inherit_parent_env = !near.config.inherit_parent_env,
            1 => near.platform = r.pick(&["linux", "Linux", "linu", "windows"]).to_string().into(),
            2 => near.requirements.reverse(),
            _ => {
                let k = near.requirements.len();
                if k > 0 {
                    let at = r.below(k);
                    let old = near.requirements[at].to_string();
                    let text: String = old.chars().map(|ch| if ch.is_ascii_digit() { char::from(b'0' + (ch as u8 - b'0' + 1) % 10) } else { ch }).collect();
                    let text = if text == old { format!("{}{}", &old[1..], &old[..1]) } else { text };
                    if let Ok(q) = PackageRequirement::parse(&text) {
                        near.requirements[at] = q;
                    }
                }
            }
        }
        m.check("different requests have different fingerprints", (key(&c) == key(&near)) == (c.get_fingerprint() == near.get_fingerprint()), || json!({"a": format!("{:?}", key(&c)), "b": format!("{:?}", key(&near))}));
        m.check("different requests have different fingerprints", (key(&c) == key(&other)) == (c.get_fingerprint() == other.get_fingerprint()), || json!({"a": format!("{:?}", key(&c)), "b": format!("{:?}", key(&other))}));
        // checking a file says what checking the context says
        let p = dir.join("check.rxt");
        if i % 4 == 0 && rt.block_on(ContextSerializer::save_to_file(&c, &p, ContextFormat::Json)).is_ok() {
            let v = rt.block_on(ContextSerializer::validate_file(&p)).ok();
            let ok = c.validate().is_ok();
            m.check("a checked file is valid exactly when its context is", v.as_ref().is_some_and(|v| v.is_valid == ok && v.errors.is_empty() == ok && v.context_id.as_deref() == Some(c.id.as_str()) && v.package_count == c.resolved_packages.len()), || json!({"context": want, "valid": ok, "got": v.map(|v| v.is_valid)}));
            let unmet = c.requirements.iter().any(|q| !c.resolved_packages.iter().any(|p| p.name == q.name()));
            m.check("a context without a package it asks for is not valid", !(unmet && ok), || want.clone());
            m.count("context files checked", 1);
        }
        // names
        let n = m.guard("naming a context file never panics", || json!({"id": c.id, "name": c.name}), || ContextFileUtils::get_default_filename(&c));
        if let Some(n) = n {
            m.check("the default file name is a plain name of a context file", ContextFileUtils::is_context_file(Path::new(&n)) && Path::new(&n).components().count() == 1 && !n.contains(['/', '\\']), || json!({"name": c.name, "file": n}));
        }
        // the resolved form used by the command line
        let mut z = RezResolvedContext::new((0..r.below(3)).filter_map(|_| r.pick(&["maya-2024", "py", "x-1+"]).parse().ok()).collect());
        for p in &c.resolved_packages {
            let mut q = ResolvedPackage::new(std::sync::Arc::new(p.clone()), format!("/root/{}", r.below(9)).into(), r.chance(1, 2));
            if r.chance(1, 2) {
                q = q.with_variant(r.below(3));
            }
            q.add_parent(texts(&mut r));
            z.resolved_packages.push(q);
        }
        z.environ = c.environment_vars.clone();
        z.metadata = c.metadata.clone();
        z.failed = r.chance(1, 2);
        z.failure_description = c.suite.clone();
        let zv = |z: &RezResolvedContext| json!({"environ": sorted(&z.environ), "metadata": sorted(&z.metadata), "failed": z.failed, "why": z.failure_description, "time": z.timestamp.to_rfc3339(), "user": z.user, "host": z.host, "platform": z.platform, "arch": z.arch, "version": z.rez_version,
            "requirements": z.requirements.iter().map(|r| r.to_string()).collect::<Vec<_>>(),
            "packages": z.resolved_packages.iter().map(|p| json!([crate::pkgs::view(&p.package, rez_next_package::serialization::PackageFormat::Json), p.root, p.variant_index, p.requested, format!("{:?}", p.parent_packages)])).collect::<Vec<_>>()});
        let p = dir.join("z.rxt");
        if z.save(&p).is_err() {
            m.check("a resolved context can be saved", false, || zv(&z));
        } else {
            match RezResolvedContext::load(&p) {
                Ok(g) => {
                    m.check("a saved resolved context loads as the same context", zv(&g) == zv(&z), || json!({"difference": vdiff(&zv(&z), &zv(&g))}));
                }
                Err(e) => {
                    m.check("a saved resolved context can be loaded", false, || json!({"context": zv(&z), "error": e.to_string()}));
                }
            }
        }
        if i == 0 {
            m.sample(want);
        }
    }
    // listing
    let l = fresh("list");
    let mut expect = vec![];
    for (k, n) in ["b.rxt", "a.json", "c.txt", "d", "e.RXT", "f.rxtb", "g h.rxt", ".rxt", "a.rxtx", "a.rxtbak", "a.rxt~", "a.rxt.bak", "a.rx", "j.json.rxt"].iter().enumerate() {
        write(l.join(n), &format!("{k}"));
        let ext = l.join(n).extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
        if ["rxt", "rxtb"].contains(&ext.as_str()) {
            expect.push(l.join(n));
        }
    }
    std::fs::create_dir_all(l.join("dir.rxt")).unwrap();
    expect.sort();
    let got = rt.block_on(ContextFileUtils::find_context_files(&l)).unwrap_or_default();
    m.check("listing finds exactly the context files", got == expect && expect.iter().any(|p| p.ends_with("b.rxt")), || json!({"got": got, "expected": expect}));
    // a reader next to a writer gets one of the two contexts or an error
    let (mut a, mut b) = (gen_context(&mut r), gen_context(&mut r));
    for k in 0..400 {
        a.metadata.insert(format!("a{k}"), "x".repeat(50));
        b.metadata.insert(format!("b{k}"), "y".repeat(90));
    }
    let (va, vb) = (cview(&a), cview(&b));
    let p = dir.join("race.rxt");
    rt.block_on(ContextSerializer::save_to_file(&a, &p, ContextFormat::Json)).unwrap();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (s2, p2) = (stop.clone(), p.clone());
    let w = rt.spawn(async move {
        while !s2.load(std::sync::atomic::Ordering::Relaxed) {
            let _ = ContextSerializer::save_to_file(&b, &p2, ContextFormat::Json).await;
            let _ = ContextSerializer::save_to_file(&a, &p2, ContextFormat::Json).await;
        }
    });
    for _ in 0..m.size(150, 8) {
        match rt.block_on(ContextSerializer::load_from_file(&p)) {
            Ok(c) => {
                let v = cview(&c);
                m.count("racing loads answered", 1);
                m.check("a racing reader gets a whole context", v == va || v == vb, || json!({"a": vdiff(&va, &v), "b": vdiff(&vb, &v)}));
            }
            Err(_) => m.count("racing loads refused", 1),
        }
    }
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    let _ = rt.block_on(w);
    rm(&dir);
    rm(&l);
}
