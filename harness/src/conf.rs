//! N01: configuration
use crate::builds::{Rec, parallel};
use crate::mon::{Mon, Rng};
use crate::util::{fresh, rm, write};
use serde_json::{Map as Obj, Value, json};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn word(r: &mut Rng) -> String {
    r.pick(&["vi", "~/packages", "/a b/c", "", "é日", "it's", "a: b", "#x", "yes", "null", "1.0", "C:\\x", "~", "{x}", "- y", "say \"hi\"", "/opt/pkgs", "tab\there", "two\nlines", "&a", "*b", "%c", "@d", " padded "]).to_string()
}
fn settings(r: &mut Rng) -> Value {
    let mut o = Obj::new();
    let keep = *r.pick(&[1, 2, 4, 4]);
    for k in ["use_rust_version", "use_rust_solver", "use_rust_repository", "rust_fallback"] {
        if r.chance(keep, 4) {
            o.insert(k.into(), json!(r.chance(1, 2)));
        }
    }
    for k in ["local_packages_path", "release_packages_path", "default_shell", "version", "tmpdir", "editor", "image_viewer", "browser", "difftool", "terminal_emulator_command"] {
        if r.chance(keep, 4) {
            o.insert(k.into(), json!(word(r)));
        }
    }
    for k in ["packages_path", "plugin_path", "package_cache_path"] {
        if r.chance(keep, 4) {
            let n = r.below(4);
            o.insert(k.into(), json!((0..n).map(|_| word(r)).collect::<Vec<_>>()));
        }
    }
    if r.chance(keep, 4) {
        o.insert("thread_count".into(), if r.chance(1, 2) { json!(null) } else { json!(r.below(64)) });
    }
    if r.chance(keep, 4) {
        let mut c = Obj::new();
        for k in ["enable_memory_cache", "enable_disk_cache"] {
            if r.chance(keep, 4) {
                c.insert(k.into(), json!(r.chance(1, 2)));
            }
        }
        for k in ["memory_cache_size", "cache_ttl_seconds"] {
            if r.chance(keep, 4) {
                c.insert(k.into(), json!(r.below(100000)));
            }
        }
        o.insert("cache".into(), Value::Object(c));
    }
    if r.chance(1, 6) {
        o.insert("some_other_tool_setting".into(), json!({"x": [1, "y"]}));
    }
    Value::Object(o)
}
/// write the settings so that a configuration reader must understand them
fn yaml(r: &mut Rng, v: &Value) -> String {
    if r.chance(1, 3) {
        return serde_json::to_string_pretty(v).unwrap();
    }
    let mut s = String::from(*r.pick(&["", "# settings\n", "---\n"]));
    let o = v.as_object().unwrap();
    if o.is_empty() {
        return "{}\n".into();
    }
    let q = |x: &Value| serde_json::to_string(x).unwrap();
    for (k, x) in o {
        match x {
            Value::Array(a) if !a.is_empty() && r.chance(1, 2) => {
                s.push_str(&format!("{k}:\n"));
                for e in a {
                    s.push_str(&format!("  - {}\n", q(e)));
                }
            }
            Value::Object(c) if !c.is_empty() && r.chance(1, 2) => {
                s.push_str(&format!("{k}:\n"));
                for (a, b) in c {
                    s.push_str(&format!("  {a}: {}\n", q(b)));
                }
            }
            x => s.push_str(&format!("{k}: {}\n", q(x))),
        }
    }
    s
}
fn merge(into: &mut Value, from: &Value) {
    match (into, from) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in b {
                merge(a.entry(k.clone()).or_insert(Value::Null), v);
            }
        }
        (a, b) => *a = b.clone(),
    }
}

fn scenario(mut r: Rng, i: usize) -> Rec {
    let mut rec = Rec::default();
    let d = fresh("conf");
    let real = Path::new(&std::env::var("REZMON_BIN").unwrap()).join("rez-next");
    let exe = d.join("inst").join("rez-next");
    std::fs::create_dir_all(exe.parent().unwrap()).unwrap();
    if std::fs::hard_link(&real, &exe).is_err() {
        std::fs::copy(&real, &exe).unwrap();
    }
    let home = d.join("my home");
    let work = d.join("work");
    std::fs::create_dir_all(&home).unwrap();
    std::fs::create_dir_all(&work).unwrap();
    let defaults: Value = {
        let o = Command::new(&exe).args(["config", "--json"]).env_clear().env("HOME", d.join("nobody")).env("TMPDIR", "/tmp").current_dir(&work).output().unwrap();
        serde_json::from_slice(&o.stdout).unwrap_or(Value::Null)
    };
    rec.check("the built-in settings are complete", defaults.get("packages_path").is_some() && defaults.get("cache").is_some(), || json!(defaults));
    for round in 0..6 {
        for p in ["inst/rezconfig.yaml", "inst/rezconfig.json", "my home/.rezconfig", "my home/.rezconfig.yaml", "my home/.rez/config.yaml"] {
            let _ = std::fs::remove_file(d.join(p));
        }
        let mut env: Vec<(String, String)> = vec![("TMPDIR".into(), "/tmp".into())];
        let with_home = r.chance(5, 6);
        if with_home {
            env.push(("HOME".into(), home.to_string_lossy().into_owned()));
        }
        let disabled = match r.below(4) {
            0 => {
                env.push(("REZ_DISABLE_HOME_CONFIG".into(), "1".into()));
                true
            }
            1 => {
                env.push(("REZ_DISABLE_HOME_CONFIG".into(), "0".into()));
                false
            }
            _ => false,
        };
        let mut search: Vec<PathBuf> = vec![d.join("inst/rezconfig.yaml"), d.join("inst/rezconfig.json")];
        let mut named: Vec<PathBuf> = vec![];
        if r.chance(1, 2) {
            for k in 0..r.range(1, 3) {
                named.push(d.join(r.pick(&["site", "a b", "deep/er"])).join(format!("rez{k}.yaml")));
            }
            env.push(("REZ_CONFIG_FILE".into(), named.iter().map(|p| p.to_string_lossy().into_owned()).collect::<Vec<_>>().join(":")));
            search.extend(named.clone());
        }
        search.extend([PathBuf::from("/etc/rez/config.yaml"), PathBuf::from("/usr/local/etc/rez/config.yaml")]);
        if with_home && !disabled {
            search.extend([home.join(".rezconfig"), home.join(".rezconfig.yaml"), home.join(".rez/config.yaml")]);
        }
        if search.iter().any(|p| p.starts_with("/etc") && p.exists()) {
            continue;
        }
        let mut chosen: Option<Value> = None;
        let mut present = vec![];
        let mut layout = vec![];
        for p in &search {
            if p.starts_with("/etc") || p.starts_with("/usr") {
                continue;
            }
            let odds = if named.contains(p) { (1, 2) } else { (1, 4) };
            let _ = std::fs::remove_file(p);
            if !r.chance(odds.0, odds.1) {
                continue;
            }
            present.push(p.clone());
            if r.chance(1, 4) {
                write(p, r.pick(&["packages_path: 7\n", "[unclosed", "just text\n", "cache: 3\n", "thread_count: many\n", "\u{0}", "use_rust_solver: 12\npackages_path: [\"/x\"]\n", "- a\n- list\n"]));
                layout.push(format!("{}: broken", p.strip_prefix(&d).unwrap().display()));
                continue;
            }
            let v = settings(&mut r);
            write(p, &if p.extension().is_some_and(|e| e == "json") { v.to_string() } else { yaml(&mut r, &v) });
            layout.push(format!("{}: {v}", p.strip_prefix(&d).unwrap().display()));
            if chosen.is_none() {
                chosen = Some(v);
            }
        }
        // home files that must not be read
        if disabled {
            write(home.join(".rezconfig"), "default_shell: stolen\n");
        }
        if !r.chance(1, 4) {
            write(work.join("rezconfig.yaml"), "default_shell: stolen\n");
            write(work.join(named.first().and_then(|p| p.file_name()).map(|n| n.to_string_lossy().into_owned()).unwrap_or("rez0.yaml".into())), "default_shell: stolen\n");
        }
        let mut want = defaults.clone();
        if let Some(c) = &chosen {
            merge(&mut want, c);
            want.as_object_mut().unwrap().remove("some_other_tool_setting");
            rec.count("settings from a file");
        } else {
            rec.count("built-in settings");
        }
        if r.chance(1, 3) {
            let ps = ["/p one", "/p2", " /padded ", "", "~/x", "/p2"];
            let n = r.below(4);
            let v: Vec<&str> = (0..n).map(|_| *r.pick(&ps)).collect();
            env.push(("REZ_PACKAGES_PATH".into(), v.join(":")));
            want["packages_path"] = json!(v.iter().map(|x| x.trim()).filter(|x| !x.is_empty()).collect::<Vec<_>>());
        }
        for (k, f) in [("REZ_LOCAL_PACKAGES_PATH", "local_packages_path"), ("REZ_RELEASE_PACKAGES_PATH", "release_packages_path")] {
            if r.chance(1, 4) {
                let v = r.pick(&["/local here", "~/l", "a:b", " x ", ""]).to_string();
                env.push((k.into(), v.clone()));
                want[f] = json!(v);
            }
        }
        let run = |args: &[&str]| -> (i32, String) {
            let o = Command::new(&exe).args(args).env_clear().envs(env.iter().cloned()).current_dir(&work).stdin(Stdio::null()).output().unwrap();
            (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).to_string())
        };
        let what = |extra: Value| json!({"environment": env, "files": layout, "observation": extra});
        rec.seen.push(format!("{i}/{round} {layout:?} {env:?}"));
        let (rc, text) = run(&["config", "--json"]);
        let got: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
        let diffs: Vec<String> = want.as_object().unwrap().keys().filter(|k| got.get(*k) != want.get(*k)).map(|k| format!("{k}: want {} got {}", want[k], got.get(k).unwrap_or(&Value::Null))).collect();
        rec.check("every setting comes from the environment, the first usable file, or is built in", rc == 0 && got == want, || what(json!(diffs)));
        let lines = |t: &str| -> Vec<PathBuf> { t.lines().map(PathBuf::from).collect() };
        let s = run(&["config", "--search-list"]);
        rec.check("the files searched are listed in their order", s.0 == 0 && lines(&s.1) == search, || what(json!({"want": search, "got": s.1})));
        let s = run(&["config", "--source-list"]);
        rec.check("the files present are listed in their order", s.0 == 0 && lines(&s.1) == present, || what(json!({"want": present, "got": s.1})));
        let field = *r.pick(&["packages_path", "cache", "cache.memory_cache_size", "editor", "thread_count", "local_packages_path", "use_rust_solver", "absent", "cache.absent", "editor.x", "cache.", ".cache", "cache..memory_cache_size", "", ".", "plugin_path", "package_cache_path", "tmpdir"]);
        let mut w = Some(&want);
        for part in field.split('.') {
            w = w.and_then(|v| v.get(part));
        }
        let f = run(&["config", field, "--json"]);
        rec.check("a field is shown as it is set, and only a setting is", (f.0 == 0) == w.is_some() && w.is_none_or(|w| serde_json::from_str::<Value>(&f.1).ok().as_ref() == Some(w)), || what(json!({"field": field, "want": w, "got": f})));
        let plain = match w {
            Some(Value::Array(a)) => Some(a.iter().map(|x| format!("{}\n", x.as_str().unwrap_or("?"))).collect::<String>()),
            Some(Value::String(x)) => Some(format!("{x}\n")),
            Some(x @ (Value::Bool(_) | Value::Number(_))) => Some(format!("{x}\n")),
            _ => None,
        };
        if let Some(plain) = plain {
            let f = run(&["config", field]);
            rec.check("a field in plain text is the setting itself, one value a line", f.0 == 0 && f.1 == plain, || what(json!({"field": field, "want": plain, "got": f})));
        }
    }
    rm(&d);
    rec
}

/// child:config: what the layered configuration holds here
pub fn child_config(_: &[String]) -> i32 {
    match rez_next_config::Config::load() {
        Ok(c) => {
            println!("{}", json!({"data": c.data(), "sources": c.sources().iter().map(|s| format!("{s:?}")).collect::<Vec<_>>()}));
            0
        }
        Err(e) => {
            eprintln!("{e}");
            3
        }
    }
}
fn tree(r: &mut Rng, depth: usize) -> Value {
    let mut o = Obj::new();
    let few = r.chance(1, 2);
    for _ in 0..r.range(if depth < 2 { 0 } else { 1 }, 4) {
        let k = if few { r.pick(&["a", "b"]) } else { r.pick(&["packages", "plugins", "path", "a", "b", "release", "max", "on", "x_y", "é", "with space", "0", "q\"t"]) }.to_string();
        let v = match r.below(if depth > 0 { 9 } else { 7 }) {
            0 => json!(word(r)),
            1 => json!(r.chance(1, 2)),
            2 => json!(*r.pick(&[0i64, 1, -1, 42, 9007199254740993, i64::MAX, i64::MIN, -5])),
            3 => json!(*r.pick(&[0.5f64, -2.25, 1e10, 3.0, 0.1])),
            4 => json!((0..r.below(3)).map(|_| word(r)).collect::<Vec<_>>()),
            5 => json!([1, 2, 3]),
            6 => json!(format!("{}\u{2028}\u{7f}\u{1}", word(r))),
            _ => tree(r, depth - 1),
        };
        o.insert(k, v);
    }
    Value::Object(o)
}
fn toml_of(v: &Value) -> String {
    let s = |x: &str| {
        let mut o = String::from("\"");
        for c in x.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o + "\""
    };
    match v {
        Value::String(x) => s(x),
        Value::Array(a) => format!("[{}]", a.iter().map(toml_of).collect::<Vec<_>>().join(", ")),
        Value::Object(o) => format!("{{ {} }}", o.iter().map(|(k, x)| format!("{} = {}", s(k), toml_of(x))).collect::<Vec<_>>().join(", ")),
        Value::Number(n) if n.is_f64() => format!("{:?}", n.as_f64().unwrap()),
        x => x.to_string(),
    }
}
/// TOML's 3.0 and JSON's 3 are the same setting
fn level(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), level(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(level).collect()),
        Value::Number(n) if n.is_f64() && n.as_f64().unwrap().fract() == 0.0 => json!(n.as_f64().unwrap() as i64),
        x => x.clone(),
    }
}
fn layered(mut r: Rng, i: usize) -> Rec {
    let mut rec = Rec::default();
    let d = fresh("layers");
    let me = Path::new(&std::env::var("REZMON_BIN").unwrap()).join("rezmon");
    let (home, work) = (d.join("home"), d.join("work"));
    std::fs::create_dir_all(&home).unwrap();
    std::fs::create_dir_all(&work).unwrap();
    let mut want = json!({});
    let mut sources = vec![];
    let mut layout = vec![];
    let files = [(home.join(".config/rez/rezconfig.toml"), "User"), (home.join(".rez/rezconfig.toml"), "User"), (work.join(".rez/rezconfig.toml"), "Project")];
    let mut broken = false;
    for (p, s) in &files {
        if !r.chance(2, 3) {
            continue;
        }
        let v = tree(&mut r, 2);
        if r.chance(1, 15) {
            write(p, "= broken\n");
            broken |= !sources.contains(s);
        } else {
            let body: String = v.as_object().unwrap().iter().map(|(k, x)| format!("{} = {}\n", toml_of(&json!(k)), toml_of(x))).collect();
            write(p, &body);
            if !sources.contains(s) && !broken {
                merge(&mut want, &v);
            }
        }
        layout.push(format!("{s}: {v}"));
        if !sources.contains(s) {
            sources.push(*s);
        }
    }
    let mut env = vec![("HOME".to_string(), home.to_string_lossy().into_owned()), ("NOT_REZ_A".into(), "x".into())];
    let mut used: Vec<String> = vec![];
    for _ in 0..r.below(4) {
        let k = r.pick(&["PACKAGES", "PACKAGES_PATH", "A_B_C", "A", "RELEASE_MAX", "ON"]).to_string();
        // a setting and a setting inside it are not both overridden
        if used.iter().any(|u| u.starts_with(&k) || k.starts_with(u.as_str())) {
            continue;
        }
        used.push(k.clone());
        let (text, v) = match r.below(7) {
            0 => ("true".into(), json!(true)),
            1 => ("17".into(), json!(17)),
            2 => ("[1, \"x\"]".into(), json!([1, "x"])),
            3 => ("{\"k\": 2}".into(), json!({"k": 2})),
            4 => ("1.2.3".into(), json!("1.2.3")),
            5 => ("\"quoted\"".into(), json!("quoted")),
            _ => {
                let w = word(&mut r);
                (w.clone(), serde_json::from_str(&w).unwrap_or(json!(w)))
            }
        };
        env.push((format!("REZ_{k}"), text));
        let mut at = &mut want;
        for part in k.to_lowercase().split('_') {
            if !at.is_object() {
                *at = json!({});
            }
            at = at.as_object_mut().unwrap().entry(part.to_string()).or_insert(json!({}));
        }
        *at = v;
    }
    let o = Command::new(&me).arg("child:config").env_clear().envs(env.iter().cloned()).current_dir(&work).stdin(Stdio::null()).output().unwrap();
    let got: Value = serde_json::from_slice(&o.stdout).unwrap_or(Value::Null);
    rec.seen.push(format!("layers {i} {layout:?} {env:?}"));
    let what = || json!({"files": layout, "environment": env, "want": want, "got": got, "stderr": String::from_utf8_lossy(&o.stderr)});
    if broken {
        rec.count("broken layers");
        rec.check("a layer that cannot be read is reported", o.status.code() == Some(3), what);
    } else {
        rec.count("layered settings");
        rec.check("layers are merged in order and the environment wins", level(&got["data"]) == level(&want), what);
        rec.check("the layers that were read are named", got["sources"] == json!(sources), what);
    }
    rm(&d);
    rec
}

pub fn n01(m: &mut Mon) {
    m.describe(
        "rez-next config is run with generated configuration files in every place it searches, complete, partial and broken, named by REZ_CONFIG_FILE or in the home and installation directories, with environment overrides on top; the settings it reports are compared with an independent reading. The layered configuration is loaded in a process of its own from generated TOML layers and compared with their merge",
        &["the system-wide files under /etc and /usr/local/etc are not exercised"],
        1000,
    );
    let n = m.size(150, 12);
    parallel(m, n, 8, scenario);
    let n = m.size(1200, 12);
    parallel(m, n, 8, layered);
}
