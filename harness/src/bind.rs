//! I01: binding system tools as packages
use crate::builds::{Rec, parallel};
use crate::files::tree;
use crate::mon::{Mon, Rng};
use crate::util::{fresh, rm, write};
use rez_next_package::serialization::PackageSerializer;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// child:bind JSON: one call of the library, in a process whose PATH holds the made-up tools
pub fn child_bind(args: &[String]) -> i32 {
    let a: Value = serde_json::from_str(&args[0]).unwrap();
    let text = |k: &str| a[k].as_str().map(|x| x.to_string());
    let root = PathBuf::from(text("root").unwrap());
    if a["op"] == "list" {
        println!("{}", json!({"list": rez_next_bind::list_bound_packages_in(&root)}));
        return 0;
    }
    let o = rez_next_bind::BindOptions {
        version_override: text("version"),
        install_path: Some(root),
        force: a["force"] == true,
        extra_metadata: serde_json::from_value(a["extra"].clone()).unwrap_or_default(),
        search_path: a["search"] == true,
    };
    let name = text("name").unwrap();
    let x = if a["op"] == "builtin" { rez_next_bind::get_builtin_binder(&name).unwrap().bind(&o) } else { rez_next_bind::PackageBinder::new().bind(&name, &o) };
    let v = match x {
        Ok(b) => json!({"name": b.name, "version": b.version, "at": b.install_path, "exe": b.executable_path}),
        Err(e) => json!({"error": e.to_string()}),
    };
    println!("{v}");
    0
}

/// what tools print, and the version a reader takes from it
const OUT: &[(&str, Option<&str>)] = &[
    ("Python 3.11.4", Some("3.11.4")),
    ("v22.1.0", Some("22.1.0")),
    ("go version go1.22.3 linux/amd64", Some("1.22.3")),
    ("git version 2.42.0.windows.1", Some("2.42.0")),
    ("cmake version 3.26.0\n\nCMake suite maintained and supported", Some("3.26.0")),
    ("some tool, 7", Some("7")),
    ("1.8", Some("1.8")),
    ("nothing to see", None),
    ("ffmpeg version n6.1.1-x Copyright", Some("6.1.1")),
    ("it's 10.20.30 (build)", Some("10.20.30")),
    ("ünï 4.5", Some("4.5")),
];
const FLAGS: [&str; 4] = ["--version", "-version", "-V", "version"];

#[derive(Clone, Debug)]
struct Tool {
    dir: PathBuf,
    /// first flag that prints anything, what it prints, whether on standard error, and whether it fails
    flag: usize,
    out: &'static str,
    version: Option<&'static str>,
    err: bool,
    fails: bool,
    /// what else it says, on standard error
    aside: bool,
}

fn scenario(mut r: Rng, i: usize, script: &Path) -> Rec {
    let mut rec = Rec::default();
    let d = fresh("bind");
    let root = d.join(*r.pick(&["pkgs", "my pkgs", "it's"]));
    std::fs::create_dir_all(&root).unwrap();
    let sys = d.join("sys");
    std::fs::create_dir_all(&sys).unwrap();
    std::os::unix::fs::symlink("/usr/bin/which", sys.join("which")).unwrap();
    write(d.join("secret/keep.txt"), "untouched");
    // tools, in directories with unpleasant names
    let names = ["python3", "python", "node", "nodejs", "rustc", "go", "git", "cmake", "gcc", "clang", "pip3", "pip", "mytool", "my-tool", "tool_2"];
    let mut dirs: Vec<(PathBuf, String)> = vec![];
    for k in 0..r.range(1, 3) {
        let n = format!("{}{k}", r.pick(&["bin", "sp ace", "it's", "q\"t", "back\\slash", "é日", "a;b", "(x)", "#h", "n\\new", "100%"]));
        let rel = r.chance(1, 5);
        dirs.push((d.join(&n), if rel { n.clone() } else { d.join(&n).to_string_lossy().into_owned() }));
    }
    let mut tools: BTreeMap<&str, Vec<Tool>> = BTreeMap::new();
    for n in names {
        for (dir, _) in &dirs {
            if !r.chance(1, 3) {
                continue;
            }
            let (mut out, mut version) = *r.pick(OUT);
            // what the command line understands of its own tools
            if r.chance(1, 2) {
                (out, version) = match n {
                    "python3" | "python" => *r.pick(&[("Python 3.12.1\n", Some("3.12.1")), ("PYTHON 2.7.18", Some("2.7.18")), ("note\nPython 3.9.0\n", Some("3.9.0"))]),
                    "pip3" | "pip" => ("pip 23.0.1 from /usr/lib/python3/dist-packages/pip (python 3.11)", Some("23.0.1")),
                    "git" => ("git version 2.43.0\n", Some("2.43.0")),
                    "cmake" => ("cmake version 3.28.3\n", Some("3.28.3")),
                    "gcc" => ("gcc (GCC) 13.2.0\nCopyright", Some("13.2.0")),
                    "clang" => ("Ubuntu clang version 18.1.3\nTarget: x86_64", Some("18.1.3")),
                    _ => (out, version),
                };
            }
            let mut t = Tool { dir: dir.clone(), flag: if r.chance(2, 3) { 0 } else { r.below(4) }, out, version, err: r.chance(1, 4), fails: r.chance(1, 8), aside: false };
            t.aside = !t.err && t.out.split_whitespace().any(|w| Some(w) == t.version) && t.out.contains(char::is_whitespace) && t.version.unwrap().matches('.').count() == 2 && r.chance(1, 3);
            std::fs::create_dir_all(dir).unwrap();
            let p = dir.join(n);
            std::os::unix::fs::symlink(script, &p).unwrap();
            write(dir.join(format!("{n}.{}.{}", FLAGS[t.flag], if t.err { "err" } else { "out" })), t.out);
            if t.aside {
                write(dir.join(format!("{n}.{}.err", FLAGS[t.flag])), "\nwarning: 9.8.7 is out\n");
            }
            if t.fails {
                write(dir.join(format!("{n}.rc")), "");
            }
            tools.entry(n).or_default().push(t);
        }
    }
    let path = dirs.iter().map(|(_, s)| s.clone()).chain([sys.to_string_lossy().into_owned()]).collect::<Vec<_>>().join(":");
    let find = |n: &str| tools.get(n).and_then(|t| t.first()).cloned();
    let me = std::env::current_exe().unwrap();
    let rez = Path::new(&std::env::var("REZMON_BIN").unwrap()).join("rez-next");
    let home = d.join("home");
    std::fs::create_dir_all(&home).unwrap();

    for step in 0..r.range(3, 8) {
        // sometimes something is there already
        if r.chance(1, 5) {
            let n = *r.pick(&["mytool", "tool_2", "git", "python", "node", "go"]);
            let v = tools.get(n).and_then(|t| t[0].version).filter(|_| r.chance(2, 3)).unwrap_or("1.0");
            let at = root.join(n).join(v);
            match r.below(3) {
                0 => std::fs::create_dir_all(&at).unwrap(),
                1 => write(at.join("package.yaml"), &format!("name: {n}\nversion: '{v}'\n")),
                _ => write(at.join("bin/data"), "payload"),
            }
        }
        let before = tree(&d);
        let op = *r.pick(&["lib", "lib", "lib", "builtin", "cli", "cli", "list"]);
        let force = r.chance(1, 4);
        let run = |c: &mut Command| {
            let o = c.env_clear().env("PATH", &path).env("HOME", &home).current_dir(&d).stdin(Stdio::null()).output().unwrap();
            (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
        };
        if op == "list" {
            let o = run(Command::new(&me).arg("child:bind").arg(json!({"op": "list", "root": root}).to_string()));
            let got: Value = serde_json::from_str(&o.1).unwrap_or(Value::Null);
            let pre = format!("{}/", root.file_name().unwrap().to_string_lossy());
            let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for k in before.keys() {
                let Some(k) = k.strip_prefix(&pre) else { continue };
                let p: Vec<&str> = k.split('/').collect();
                if p.len() == 3 && p[2] == "package.py" {
                    want.entry(p[0].into()).or_default().push(p[1].into());
                }
            }
            want.values_mut().for_each(|v| v.sort());
            let want: Vec<(String, Vec<String>)> = want.into_iter().collect();
            rec.check("bound packages are listed completely and in order", got["list"] == json!(want), || json!({"want": want, "got": got}));
            continue;
        }
        // what is asked for, and what a correct answer is: Err(()) for a refusal
        let name: String;
        let mut req: Option<String> = None;
        let mut given: Option<String> = None;
        let mut extra: Vec<(String, String)> = vec![];
        let mut search = true;
        let want: Option<(String, Option<Tool>)>;
        let hostile;
        if op == "cli" {
            name = r.pick(&["python", "pip", "cmake", "git", "gcc", "clang", "mytool", "nothere", "../esc", "platform"]).to_string();
            let cands: &[(&str, &str)] = match name.as_str() {
                "python" => &[("python3", "python"), ("python", "python")],
                "pip" => &[("pip3", "pip"), ("pip", "pip")],
                "cmake" => &[("cmake", "cmake version")],
                "git" => &[("git", "git version")],
                "gcc" => &[("gcc", "")],
                "clang" => &[("clang", "clang version")],
                _ => &[],
            };
            let mut found = None;
            for (exe, prefix) in cands {
                // the command line asks with --version, wants success and, but for python, standard output
                if let Some(t) = find(exe)
                    && t.flag == 0
                    && !t.fails
                    && (!t.err || name == "python")
                    && t.version.is_some()
                    && t.out.to_lowercase().contains(prefix)
                {
                    found = Some(t);
                    break;
                }
            }
            // gcc takes the first number of the first line
            let version = found.as_ref().map(|t| t.version.unwrap().to_string());
            if r.chance(1, 3) && !["nothere", "platform", "mytool", "../esc"].contains(&name.as_str()) {
                req = Some(r.pick(&["3", "2+", "3.12", "99+", "13.2.0"]).to_string());
            }
            let fits = |v: &str| match req.as_deref() {
                None => true,
                Some(q) if q.ends_with('+') => v.split('.').next().unwrap().parse::<u32>().unwrap() >= q.trim_end_matches('+').parse::<u32>().unwrap(),
                Some(q) => v == q || v.starts_with(&format!("{q}.")),
            };
            want = match version {
                Some(v) if fits(&v) => Some((v, found)),
                _ if name == "platform" => Some(("1.0.0".into(), None)),
                _ => None,
            };
            hostile = name == "../esc";
        } else {
            let builtin = op == "builtin";
            let abs = d.join("abs").to_string_lossy().into_owned();
            name = if builtin {
                r.pick(&["python", "node", "rust", "go", "git", "cmake", "pip"]).to_string()
            } else if r.chance(1, 5) {
                r.pick(&["../esc", "a/b", "", ".", "..", abs.as_str(), "x y", "it's", "n\nname = 'evil'", "-x", "tool'; import os"]).to_string()
            } else {
                r.pick(&["mytool", "my-tool", "tool_2", "git", "nothere", "node", "go"]).to_string()
            };
            let mut odd = false;
            if r.chance(1, 3) {
                odd = r.chance(1, 4);
                given = Some(if odd { r.pick(&["../../esc", "1.0/2", "", "1'0", "1.0\n", "..", " 1.0", "v1.0", "v7", "1..0", ".5", "1.", "-1", "1_", "/abs", "1.0'\nx = '"]) } else { r.pick(&["1.0", "2024.1", "3.11.0", "1.0-beta", "7"]) }.to_string());
            }
            if !builtin {
                search = r.chance(3, 4);
            }
            for k in ["help", "uuid", "build_system"] {
                if r.chance(1, 4) {
                    extra.push((k.into(), r.pick(&["plain", "it's", "say \"hi\"", "back\\slash", "two\nlines", "é", "C:\\new", "", "'''", "tab\t"]).to_string()));
                }
            }
            let exes: Vec<&str> = match name.as_str() {
                "python" if builtin => vec!["python3", "python"],
                "node" if builtin => vec!["node", "nodejs"],
                "rust" => vec!["rustc"],
                "pip" if builtin => vec!["pip3", "pip"],
                n => vec![names.iter().find(|x| **x == n).copied().unwrap_or("?")],
            };
            let mut w = None;
            for e in exes {
                let t = find(e);
                let v = given.clone().or_else(|| t.as_ref().and_then(|t| t.version).map(|v| v.to_string()));
                if let Some(v) = v {
                    w = Some((v, t.filter(|_| search)));
                    break;
                }
            }
            hostile = odd || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') || name.is_empty() || name.starts_with('-');
            // the version directory is the caller's once it exists
            let rootname = root.file_name().unwrap().to_string_lossy();
            if let Some((v, _)) = &w
                && !force
                && before.contains_key(&format!("{rootname}/{name}/{v}"))
            {
                w = None;
            }
            want = w;
        }
        let rootname = root.file_name().unwrap().to_string_lossy().into_owned();
        let o = if op == "cli" {
            let spec = req.as_ref().map_or(name.clone(), |q| format!("{name}-{q}"));
            let mut c = Command::new(&rez);
            c.arg("bind").arg(&spec).arg("-i").arg(&root);
            if r.chance(1, 2) {
                c.arg("--no-deps");
            }
            run(&mut c)
        } else {
            run(Command::new(&me).arg("child:bind").arg(json!({"op": op, "name": name, "version": given, "root": root, "force": force, "extra": extra, "search": search}).to_string()))
        };
        let after = tree(&d);
        let got: Value = if op == "cli" { Value::Null } else { serde_json::from_str(&o.1).unwrap_or(Value::Null) };
        let ok = if op == "cli" { o.0 == Some(0) } else { got["name"].is_string() };
        let what = |x: Value| json!({"call": op, "name": name, "version range": req, "version given": given, "force": force, "search": search, "extra": extra, "tools": format!("{tools:?}"), "want": format!("{want:?}"), "got": got, "stdout": o.1, "stderr": o.2, "detail": x});
        rec.seen.push(format!("{i}.{step} {op} {name:?} {given:?} {req:?} {ok}"));
        rec.count(format!("{op}: {}", if ok { "bound" } else { "refused" }));
        rec.check("binding ends with an answer", o.0.is_some() && (op == "cli" || got.is_object()), || what(json!(null)));
        let changed: Vec<&String> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k)).collect();
        if !ok {
            rec.check("a bind that is refused writes nothing", changed.is_empty(), || what(json!(changed)));
            if !hostile {
                rec.check("a tool that is there is bound, unless that version already exists", want.is_none(), || what(json!(null)));
            }
            continue;
        }
        let version = if op == "cli" { want.as_ref().map(|w| w.0.clone()).unwrap_or_default() } else { got["version"].as_str().unwrap_or("").to_string() };
        if !rec_bound(&mut rec, want.is_some(), &what) {
            continue;
        }
        let (wv, exe) = want.clone().unwrap();
        rec.check("the version is the one the tool prints or the caller gives", version == wv, || what(json!(version)));
        let file = format!("{rootname}/{name}/{version}/package.py");
        let stray: Vec<&&String> = changed.iter().filter(|k| ***k != file && !file.starts_with(&format!("{k}/"))).collect();
        rec.check("binding writes the definition at name/version and touches nothing else", after.contains_key(&file) && stray.is_empty(), || what(json!({"strays": stray, "changed": changed})));
        let p = match PackageSerializer::load_from_file(&d.join(&file)) {
            Ok(p) => p,
            Err(e) => {
                rec.check("a bound package can be loaded", false, || what(json!({"error": e.to_string(), "text": after.get(&file)})));
                continue;
            }
        };
        let mut bad = vec![];
        let mut same = |k: &str, a: Value, b: Value| {
            if a != b {
                bad.push(json!({"field": k, "want": a, "got": b}));
            }
        };
        same("name", json!(name), json!(p.name));
        same("version", json!(version), json!(p.version.as_ref().map(|v| v.as_str())));
        if op != "cli" {
            same("tools", json!([name]), json!(p.tools));
            let at = |k: &str| extra.iter().rev().find(|x| x.0 == k).map(|x| x.1.clone());
            same("help", json!(at("help")), json!(p.help));
            same("uuid", json!(at("uuid")), json!(p.uuid));
            same("build_system", json!(at("build_system")), json!(p.build_system));
            same("executable", json!(exe.as_ref().map(|t| t.dir.to_string_lossy().into_owned())), json!(got["exe"].as_str().and_then(|x| Path::new(x).parent()).map(|x| x.to_string_lossy().into_owned())));
            same("place", json!(d.join(&file).parent().unwrap()), got["at"].clone());
        }
        let acts = p.commands.as_deref().map_or(Ok(json!([])), crate::pkgs::actions);
        let w = exe.as_ref().map_or(json!([]), |t| json!([["prepend", "PATH", t.dir.to_string_lossy()]]));
        same("commands", w, acts.unwrap_or_else(|e| json!(e)));
        rec.check("a bound package names the tool, its version, its directory and the given data exactly", bad.is_empty(), || what(json!({"differences": bad, "text": after.get(&file)})));
    }
    rm(&d);
    rec
}
fn rec_bound(rec: &mut Rec, ok: bool, what: &dyn Fn(Value) -> Value) -> bool {
    rec.check("only a tool that is there, at a version that is asked for and not there yet, is bound", ok, || what(Value::Null));
    ok
}

pub fn i01(m: &mut Mon) {
    m.describe(
        "made-up tools in directories with hostile names are bound by the library, the built-in binders and the command line, with hostile names, versions and metadata; the whole scratch tree is compared before and after, and the definition written is loaded and its fields and commands are compared with what the tool printed",
        &["/usr/bin/which finds tools", "directories on PATH contain neither braces nor dollar signs, which commands may expand", "the command line may rewrite a definition it wrote before"],
        1000,
    );
    let s = fresh("bindscript").join("tool.sh");
    write(&s, "#!/bin/sh\n[ -f \"$0.$1.out\" ] && /bin/cat \"$0.$1.out\"\n[ -f \"$0.$1.err\" ] && /bin/cat \"$0.$1.err\" >&2\n[ -f \"$0.rc\" ] && exit 3\nexit 0\n");
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&s, std::fs::Permissions::from_mode(0o755)).unwrap();
    let n = m.size(800, 15);
    let t = s.clone();
    parallel(m, n, 8, move |r, i| scenario(r, i, &t));
    rm(s.parent().unwrap());
}
