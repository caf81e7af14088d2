//! K01: `rez-next env` end to end
use crate::builds::{Rec, parallel};
use crate::envs::{Map, Op, Pk, diff, model};
use crate::mon::{Mon, Rng};
use crate::util::{fresh, rm, write};
use rez_next_context::ContextConfig;
use rez_next_package::{Package, Requirement};
use rez_next_version::Version;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// child:dump OUT CODE ARGS..: record what a command run by the code under test sees
pub fn child_dump(args: &[String]) -> i32 {
    use std::os::unix::ffi::OsStringExt;
    let hexy = |b: Vec<u8>| String::from_utf8(b).unwrap_or_else(|e| format!("bytes:{:?}", e.as_bytes()));
    let env: Vec<(String, String)> = std::env::vars_os().map(|(k, v)| (hexy(k.into_vec()), hexy(v.into_vec()))).collect();
    let rxt = std::env::var("REZ_RXT_FILE").ok().and_then(|f| std::fs::read_to_string(f).ok());
    let mut input = String::new();
    use std::io::Read;
    let _ = std::io::stdin().read_to_string(&mut input);
    let v = json!({"args": &args[2..], "env": env, "cwd": std::env::current_dir().unwrap().to_string_lossy(), "rxt": rxt, "stdin": input});
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&args[0]).unwrap();
    use std::io::Write;
    writeln!(f, "{v}").unwrap();
    print!("out<{}>", args[2..].join("|"));
    eprint!("err<{}>", args.len());
    if args[1] == "kill" {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let _ = Command::new("/bin/kill").args(["-9", &std::process::id().to_string()]).status();
    }
    args[1].parse().unwrap_or(0)
}

/// name, version, model, requires, variants
type Entry = (String, String, Pk, Vec<String>, Vec<Vec<String>>);
struct Uni {
    pk: Vec<Entry>,
}

fn py(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn val(r: &mut Rng, trip: &str) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        let p = r.pick(&["{root}", "/bin", "{version}", "x", " y z ", "a;b", "&&", "#h", "'", "\"", "*", "(p)", "é日", "{this.root}/lib", "!", "|", "<>", "~", "%s", "=", "TRIP", "back\\slash", "\\", "[a]", "?"]);
        if *p == "TRIP" {
            s.push_str(&format!("`touch {trip}`"));
        } else {
            s.push_str(p);
        }
    }
    s
}

fn gen_uni(r: &mut Rng, dir: &Path, trip: &str, observer: &str) -> Uni {
    let repos = [dir.join("repo a"), dir.join("repo~b")];
    let fams = ["app", "lib_a", "lib_b", "core", "py"];
    let mut pk = vec![];
    for (fi, fam) in fams.iter().enumerate() {
        let repo = &repos[r.below(2)];
        let mut vers = vec!["1.0", "1.2.0", "2.0", "2.1.3", "10.0"];
        r.shuffle(&mut vers);
        for ver in vers.iter().take(r.range(1, 3)) {
            let root = repo.join(fam).join(ver);
            let mut text = format!("name = \"{fam}\"\nversion = \"{ver}\"\n");
            let mut req = vec![];
            for other in &fams[fi + 1..] {
                if r.chance(1, 3) {
                    req.push(format!("{other}{}", r.pick(&["", "", "-1+", "-1", "-2+", "<3"])));
                }
            }
            if !req.is_empty() {
                text.push_str(&format!("requires = [{}]\n", req.iter().map(|x| py(x)).collect::<Vec<_>>().join(", ")));
            }
            let mut variants: Vec<Vec<String>> = vec![];
            if fi + 1 < fams.len() && r.chance(1, 3) {
                for _ in 0..r.range(1, 3) {
                    let mut v: Vec<String> = vec![];
                    for other in &fams[fi + 1..] {
                        if r.chance(1, 3) {
                            v.push(format!("{other}{}", r.pick(&["", "-1", "-2", "-10", "-1+"])));
                        }
                    }
                    if !v.is_empty() && !variants.contains(&v) {
                        variants.push(v);
                    }
                }
            }
            let roots: Vec<PathBuf> = if variants.is_empty() { vec![root.clone()] } else { variants.iter().map(|v| v.iter().fold(root.clone(), |p, x| p.join(x))).collect() };
            for x in &roots {
                std::fs::create_dir_all(x).unwrap();
            }
            if !variants.is_empty() {
                let rows: Vec<String> = variants.iter().map(|v| format!("[{}]", v.iter().map(|x| py(x)).collect::<Vec<_>>().join(", "))).collect();
                text.push_str(&format!("variants = [{}]\n", rows.join(", ")));
            }
            let mut p = Package::new(fam.to_string());
            p.version = Version::parse(ver).ok();
            if r.chance(1, 3) {
                text.push_str("tools = [\"tool0\"]\n");
                p.tools.push("tool0".into());
                if r.chance(1, 2) {
                    for x in &roots {
                        write(x.join("tool0"), "x");
                    }
                }
            }
            let mut ops = vec![];
            let mut body = vec![];
            for _ in 0..r.range(0, 4) {
                let n = r.pick(&["AA", "BB", "PATH", "LIBS", "BASE", "low_er"]).to_string();
                let v = if n == "BASE" && r.chance(1, 2) { r.pick(&[" base ", "base\n", "base", "BASE", "a  b"]).to_string() } else { val(r, trip) };
                let (t, op) = match r.below(9) {
                    0 | 1 => (format!("env.{n} = {}", py(&v)), Op::Set(n.clone(), v)),
                    2 => (format!("setenv(\"{n}\", {})", py(&v)), Op::Set(n.clone(), v)),
                    3 => (format!("env.{n}.prepend({})", py(&v)), Op::Pre(n, v)),
                    4 => (format!("prependenv(\"{n}\", {})", py(&v)), Op::Pre(n, v)),
                    5 => (format!("env.{n}.append({})", py(&v)), Op::App(n, v)),
                    6 => (format!("appendenv(\"{n}\", {})", py(&v)), Op::App(n, v)),
                    7 if n != "PATH" => (format!("unsetenv(\"{n}\")"), Op::Unset(n)),
                    _ => (format!("alias(\"run_{fam}\", \"{observer} child:dump\")"), Op::Alias(format!("run_{fam}"), format!("{observer} child:dump"))),
                };
                // a reference in the parent's text is not the package's: see DESIGN.md
                if let Op::Pre(n, _) | Op::App(n, _) = &op
                    && n == "BASE"
                {
                    continue;
                }
                // PATH must keep the system's directories for bash itself
                if let Op::Set(n, _) = &op
                    && n == "PATH"
                {
                    continue;
                }
                body.push(t);
                ops.push(op);
            }
            if r.chance(1, 30) {
                let (t, op) = if r.chance(1, 2) { ("stop()".to_string(), Op::Stop(None)) } else { ("stop(\"not here\")".to_string(), Op::Stop(Some("not here".into()))) };
                body.push(t);
                ops.push(op);
            }
            if !body.is_empty() {
                text.push_str("\ndef commands():\n");
                for b in &body {
                    text.push_str(&format!("    {b}\n"));
                }
            }
            write(root.join("package.py"), &text);
            let phases = [None, if body.is_empty() { None } else { Some(ops) }, None];
            pk.push((fam.to_string(), ver.to_string(), Pk { p, root: root.to_string_lossy().into_owned(), ver: Some(ver.to_string()), phases }, req, variants));
        }
    }
    Uni { pk }
}

const NOISE: [&str; 4] = ["_", "SHLVL", "PWD", "OLDPWD"];
fn clean(m: &Map) -> Map {
    m.iter().filter(|(k, _)| !NOISE.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn cut(s: &str) -> String {
    s.chars().take(600).collect()
}

fn scenario(mut r: Rng, i: usize) -> Rec {
    let mut rec = Rec::default();
    let d = fresh("cli");
    let bin = std::env::var("REZMON_BIN").unwrap();
    let observer = format!("{bin}/rezmon");
    let trip = d.join("TRIPPED");
    let uni = gen_uni(&mut r, &d, &trip.to_string_lossy(), &observer);
    let tmp = d.join("tmp");
    let cwd = d.join("work dir");
    std::fs::create_dir_all(&tmp).unwrap();
    std::fs::create_dir_all(&cwd).unwrap();
    let paths = format!("{}:{}:{}", d.join("repo a").display(), d.join("absent").display(), d.join("repo~b").display());
    let mut base: Map = BTreeMap::new();
    let at_home = r.chance(1, 2);
    base.insert("HOME".into(), if at_home { d.to_string_lossy().into_owned() } else { d.join("home").to_string_lossy().into_owned() });
    // PATH may name the directory of rez-next already
    base.insert("PATH".into(), r.pick(&["/usr/local/bin:/usr/bin:/bin", "/usr/local/bin:/usr/bin:/bin", "BIN:/usr/bin:/bin", "/usr/bin:BIN:/bin", "/usr/bin:/bin:BIN", "/usr/bin:/bin:BIN/x"]).replace("BIN", &bin));
    let by_env = r.chance(1, 2);
    if by_env {
        base.insert("REZ_PACKAGES_PATH".into(), if at_home { format!("~/repo a:{}:~/repo~b", d.join("absent").display()) } else { paths.clone() });
    }
    let local = r.pick(&["repo a", "repo~b", "repo~b/", "repo", ".", "absent"]).to_string();
    base.insert("REZ_LOCAL_PACKAGES_PATH".into(), if local == "." { d.to_string_lossy().into_owned() } else { format!("{}/{local}", d.display()) });
    base.insert("TMPDIR".into(), tmp.to_string_lossy().into_owned());
    base.insert("BASE".into(), r.pick(&["base", "", "a b", "'q' \"d\" $HOME `id` \\", "two\nlines"]).to_string());
    if r.chance(1, 2) {
        base.insert("LIBS".into(), "/parent/libs".into());
    }
    let odd = r.chance(1, 6);
    let spawn = |args: &[String], stdin: &str| -> (i32, String, String) {
        let mut c = Command::new(Path::new(&bin).join("rez-next"));
        c.args(args).env_clear().envs(&base).current_dir(&cwd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if odd {
            c.env("ODD", std::ffi::OsStr::from_bytes(b"a\xff\xfeb"));
        }
        let mut ch = c.spawn().unwrap();
        use std::io::Write;
        let _ = ch.stdin.take().unwrap().write_all(stdin.as_bytes());
        let o = ch.wait_with_output().unwrap();
        (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string())
    };
    // requests
    for round in 0..3 {
        let mut req: Vec<String> = vec![];
        for _ in 0..r.range(1, 2) {
            let (n, v, ..) = r.pick(&uni.pk);
            let maj = v.split('.').next().unwrap();
            let t = match r.below(7) {
                0 | 1 => n.clone(),
                2 => format!("{n}-{v}"),
                3 => format!("{n}-{maj}+"),
                4 => format!("{n}>={v}"),
                5 => format!("{n}<{v}"),
                _ => format!("{n}=={v}"),
            };
            if !req.iter().any(|q| q.starts_with(n.as_str())) {
                req.push(t);
            }
        }
        if r.chance(1, 8) {
            req.push("no_such_package-1".into());
        }
        let mut head: Vec<String> = vec!["env".into()];
        head.extend(req.clone());
        if !by_env {
            head.extend(["--paths".into(), paths.clone()]);
        }
        head.push("--quiet".into());
        let build = r.chance(1, 5);
        if build {
            head.push("--build".into());
        }
        if r.chance(1, 5) {
            head.extend(["--shell".into(), "bash".into()]);
        }
        let what = |extra: Value| json!({"request": req, "repos": paths, "observation": extra});
        let pr = {
            let mut a = head.clone();
            a.push("--print-resolve".into());
            spawn(&a, "")
        };
        let resolved: Vec<(String, String)> = pr.1.lines().filter_map(|l| l.split_once('-').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
        // what --no-local leaves out
        if r.chance(1, 3) {
            let mut a = head.clone();
            a.extend(["--print-resolve".into(), "--no-local".into()]);
            let without = spawn(&a, "");
            let left: Vec<String> = ["repo a", "repo~b"].iter().filter(|x| **x != local.trim_end_matches('/')).map(|x| d.join(x).to_string_lossy().into_owned()).collect();
            let mut a: Vec<String> = vec!["env".into()];
            a.extend(req.clone());
            a.extend(["--paths".into(), left.join(":"), "--print-resolve".into()]);
            let same = spawn(&a, "");
            rec.count("resolves without the local packages");
            rec.check("--no-local leaves out the local packages and no others", without.0 == same.0 && without.1 == same.1, || what(json!({"local": local, "without": cut(&format!("{without:?}")), "same": cut(&format!("{same:?}"))})));
        }
        let stopped = resolved.iter().any(|(n, v)| uni.pk.iter().any(|k| k.0 == *n && k.1 == *v && k.2.phases[1].as_ref().is_some_and(|o| o.iter().any(|o| matches!(o, Op::Stop(_))))));
        let out = d.join(format!("dump{round}"));
        let code = *r.pick(&[0, 0, 1, 2, 42, 127, 255]);
        let extra: Vec<String> = (0..r.below(4)).map(|_| r.pick(&["", "a b", "--flag", "-c", "'", "\"", "$HOME", "`id`", "\\", "*", "é", "new\nline", "--", "$(touch x)", "!", "a'b\"c", ";", "~"]).to_string()).collect();
        let mut stdin = r.pick(&["", "some input\n"]).to_string();
        let how = r.below(4);
        let killed = how != 3 && r.chance(1, 12);
        let code_text = if killed { "kill".to_string() } else { code.to_string() };
        let mut args = head.clone();
        let mut want_args = extra.clone();
        let mut alias = None;
        match how {
            0 => {
                args.push("--".into());
                args.push(observer.clone());
                args.extend(["child:dump".into(), out.to_string_lossy().into_owned(), code_text]);
                args.extend(extra.clone());
            }
            3 => {
                // an interactive shell, which reads what to do
                stdin = format!("{observer} child:dump {} {code} one 'two three' \"$REZ_USED_REQUEST\" < /dev/null\n", out.display());
                want_args = vec!["one".into(), "two three".into(), req.join(" ")];
            }
            1 => {
                let line = format!("{observer} child:dump {} {code_text} one 'two three' \"$REZ_USED_REQUEST\"", out.display());
                want_args = vec!["one".into(), "two three".into(), req.join(" ")];
                args.extend(["-c".into(), line]);
            }
            _ => {
                // an alias that one of the selected packages defines
                for (n, v) in &resolved {
                    if let Some(k) = uni.pk.iter().find(|k| k.0 == *n && k.1 == *v)
                        && k.2.phases[1].as_ref().is_some_and(|o| o.iter().any(|o| matches!(o, Op::Alias(..))))
                    {
                        alias = Some(format!("run_{n}"));
                    }
                }
                args.push("--".into());
                match &alias {
                    Some(a) => args.push(a.clone()),
                    None => args.extend([observer.clone(), "child:dump".into()]),
                }
                args.extend([out.to_string_lossy().into_owned(), code_text]);
                args.extend(extra.clone());
            }
        }
        let (rc, so, se) = spawn(&args, &stdin);
        let dumps: Vec<Value> = std::fs::read_to_string(&out).unwrap_or_default().lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
        rec.seen.push(format!("{i}/{round} {req:?} {how} {}", resolved.len()));
        rec.check("a resolve is printed or refused the same way a command is run or refused", (pr.0 == 0 && !stopped) == !dumps.is_empty(), || what(json!({"print": cut(&format!("{pr:?}")), "command": cut(&format!("{rc} {so} {se}"))})));
        let files: Vec<String> = std::fs::read_dir(&tmp).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
        rec.check("nothing is left behind in the temporary directory", files.is_empty(), || what(json!({"left": files, "status": rc})));
        for f in files {
            let p = tmp.join(f);
            let _ = if p.is_dir() { std::fs::remove_dir_all(p) } else { std::fs::remove_file(p) };
        }
        rec.check("nothing hidden in a value is executed", !trip.exists() && !cwd.join("x").exists(), || what(json!({"args": args})));
        if pr.0 != 0 {
            rec.count("refused");
            rec.check("a command of a refused resolve is not run and fails", rc != 0 && dumps.is_empty(), || what(json!({"status": rc, "out": cut(&so)})));
            // a request for packages that exist, without constraints and requirements, is not refused
            let simple = req.iter().all(|q| uni.pk.iter().any(|k| k.0 == *q)) && uni.pk.iter().all(|k| k.3.is_empty() && k.4.is_empty());
            rec.check("a plain request is not refused", !simple, || what(json!(cut(&pr.2))));
            continue;
        }
        if stopped {
            rec.count("stopped by a package");
            rec.check("nothing is run when a package stops the activation", rc != 0 && dumps.is_empty(), || what(json!({"status": rc, "out": cut(&so)})));
            let mut a = head.clone();
            a.push("--print-env".into());
            rec.check("no environment is printed when a package stops the activation", spawn(&a, "").0 != 0, || what(Value::Null));
            continue;
        }
        rec.count(["run argv", "run -c", "run alias", "run in an interactive shell"][how]);
        if how == 2 && alias.is_none() {
            rec.count("no alias to run");
        }
        rec.check("the command is run exactly once", dumps.len() == 1, || what(json!({"runs": dumps.len(), "args": args, "status": rc, "err": cut(&se)})));
        let Some(dump) = dumps.first() else { continue };
        rec.check("the exit status is passed on", if killed { rc != 0 } else { rc == code }, || what(json!({"want": code, "got": rc, "err": cut(&se)})));
        let got_args: Vec<String> = serde_json::from_value(dump["args"].clone()).unwrap_or_default();
        rec.check("arguments are passed on unchanged", got_args == want_args, || what(json!({"want": want_args, "got": got_args, "how": how})));
        rec.check("standard output is the command's own", so == format!("out<{}>", want_args.join("|")) , || what(json!({"out": cut(&so)})));
        let own_err = if how == 3 { se.contains("err<5>") } else { killed || se == format!("err<{}>", want_args.len() + 2) };
        rec.check("standard error is the command's own", own_err, || what(json!({"err": cut(&se)})));
        rec.check("standard input reaches the command", dump["stdin"] == json!(if how == 3 { "" } else { stdin.as_str() }), || what(json!({"got": dump["stdin"]})));
        rec.check("the command runs where rez-next was started", dump["cwd"] == json!(cwd.to_string_lossy()), || what(json!({"got": dump["cwd"]})));
        // the resolve is a valid one
        let mut ok = Ok(());
        let envs: Vec<(String, String)> = serde_json::from_value(dump["env"].clone()).unwrap_or_default();
        let got: Map = envs.into_iter().collect();
        let mut sel: Vec<Entry> = vec![];
        for (n, v) in &resolved {
            match uni.pk.iter().find(|k| k.0 == *n && k.1 == *v) {
                Some(k) => {
                    let mut k = k.clone();
                    if !k.4.is_empty() {
                        // the selected variant is the one the package is rooted at
                        let base = k.2.root.clone();
                        let at = got.get(&format!("{}_ROOT", n.to_uppercase())).cloned().unwrap_or_default();
                        match k.4.iter().find(|v| v.iter().fold(PathBuf::from(&base), |p, x| p.join(x)).to_string_lossy() == at) {
                            Some(v) => {
                                k.3.extend(v.iter().cloned());
                                k.2.root = at;
                                rec.count("variants activated");
                            }
                            None => ok = Err(format!("{n}-{v} is not rooted at a variant: {at}")),
                        }
                    }
                    sel.push(k)
                }
                None => ok = Err(format!("{n}-{v} does not exist")),
            }
        }
        let all: Vec<&String> = req.iter().chain(sel.iter().flat_map(|k| k.3.iter())).collect();
        for q in all {
            let want: Requirement = q.parse().unwrap();
            let n = sel.iter().filter(|k| k.0 == want.name).count();
            let sat = sel.iter().any(|k| k.0 == want.name && want.is_satisfied_by(&Version::parse(&k.1).unwrap()));
            if n != 1 || !sat {
                ok = Err(format!("{q} is not satisfied ({n} selected)"));
            }
        }
        rec.check("the resolved packages satisfy the request", ok.is_ok(), || what(json!({"resolved": resolved, "why": ok})));
        if sel.len() != resolved.len() || ok.is_err() {
            continue;
        }
        // the environment
        let pks: Vec<Pk> = sel.iter().map(|k| k.2.clone()).collect();
        let cfg = ContextConfig::default();
        let Some(act) = model(&base, &pks, &cfg) else { continue };
        let mut want = act.vars.clone();
        let p = want.get("PATH").cloned().unwrap_or_default();
        if !p.split(':').any(|x| x == bin) {
            want.insert("PATH".into(), if p.is_empty() { bin.clone() } else { format!("{bin}:{p}") });
        }
        let names = resolved.iter().map(|(n, v)| format!("{n}-{v}")).collect::<Vec<_>>().join(" ");
        want.insert("REZ_USED_REQUEST".into(), req.join(" "));
        want.insert("REZ_USED_RESOLVE".into(), names.clone());
        want.insert("REZ_USED_PACKAGES_NAMES".into(), names);
        if build {
            want.insert("REZ_BUILD_ENV".into(), "1".into());
        }
        let mut run_want = want.clone();
        for k in ["REZ_RXT_FILE", "REZ_CONTEXT_FILE"] {
            rec.check("the command can find its context", got.contains_key(k), || what(json!(k)));
            run_want.insert(k.into(), got.get(k).cloned().unwrap_or_default());
        }
        if odd {
            run_want.insert("ODD".into(), format!("bytes:{:?}", b"a\xff\xfeb"));
        }
        rec.check("the command sees exactly the environment of its packages", clean(&run_want) == clean(&got), || what(json!({"difference": diff(&clean(&run_want), &clean(&got)), "how": how, "resolved": resolved})));
        // the saved context is the one that was resolved
        let rxt: Value = serde_json::from_str(dump["rxt"].as_str().unwrap_or("null")).unwrap_or(Value::Null);
        let inside: Vec<String> = rxt["resolved_packages"].as_array().map(|a| a.iter().map(|p| p["name"].as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
        rec.check("the context file holds the resolved packages while the command runs", inside == resolved.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), || what(json!({"inside": inside})));
        // printed forms
        let mut a = head.clone();
        a.extend(["--print-env".into(), "--format".into(), "json".into()]);
        let pj = spawn(&a, "");
        let pm: Option<Map> = serde_json::from_str(&pj.1).ok();
        let mut pwant = want.clone();
        if odd {
            pwant.remove("ODD");
        }
        rec.check("the printed environment is the environment", pj.0 == 0 && pm.as_ref() == Some(&pwant), || what(json!({"difference": pm.as_ref().map(|m| diff(&pwant, m)), "err": cut(&pj.2)})));
        for form in ["--print-env", "--print-script"] {
            let mut a = head.clone();
            a.push(form.into());
            let ps = spawn(&a, "");
            let f = d.join("sourced.sh");
            std::fs::write(&f, format!("{}\n{observer} child:dump {} 0\n", ps.1, d.join("sourced").display())).unwrap();
            let _ = std::fs::remove_file(d.join("sourced"));
            let o = Command::new("/bin/bash").arg("--norc").arg(&f).env_clear().envs(&base).current_dir(&cwd).stdin(Stdio::null()).output().unwrap();
            let sd: Value = std::fs::read_to_string(d.join("sourced")).ok().and_then(|t| serde_json::from_str(t.trim()).ok()).unwrap_or(Value::Null);
            let se: Vec<(String, String)> = serde_json::from_value(sd["env"].clone()).unwrap_or_default();
            let sm: Map = se.into_iter().collect();
            // a printed environment cannot remove a variable of the shell that reads it
            let mut w = clean(&want);
            if form == "--print-env" {
                for (k, v) in &base {
                    w.entry(k.clone()).or_insert(v.clone());
                }
            }
            rec.check(if form == "--print-env" { "a shell that reads the printed environment gets it" } else { "a shell that reads the printed script gets the environment" }, ps.0 == 0 && clean(&sm) == w, || what(json!({"difference": diff(&w, &clean(&sm)), "stderr": cut(&String::from_utf8_lossy(&o.stderr))})));
            rec.check("nothing hidden in a printed value is executed", !trip.exists() && !cwd.join("x").exists(), || what(json!(form)));
        }
        let mut a = head.clone();
        a.extend(["--print-env".into(), "--format".into(), "dict".into()]);
        let pd = spawn(&a, "");
        let again = spawn(&a, "");
        rec.check("an environment is printed the same way every time", pd.1 == again.1, || what(json!("dict")));
        let undict = |l: &str| -> Option<(String, String)> {
            let (k, v) = l.strip_prefix('\'')?.strip_suffix('\'')?.split_once("': '")?;
            let mut o = String::new();
            let mut it = v.chars();
            while let Some(c) = it.next() {
                o.push(match c {
                    '\\' => match it.next()? {
                        'n' => '\n',
                        c @ ('\\' | '\'') => c,
                        _ => return None,
                    },
                    '\'' => return None,
                    c => c,
                });
            }
            Some((k.to_string(), o))
        };
        let dm: Option<Map> = pd.1.lines().map(undict).collect();
        rec.check("the environment printed as a dictionary is the environment", dm.as_ref() == Some(&pwant), || what(json!({"difference": dm.as_ref().map(|m| diff(&pwant, m)), "text": cut(&pd.1)})));
    }
    let _ = std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755));
    rm(&d);
    let _ = PathBuf::new();
    rec
}

pub fn k01(m: &mut Mon) {
    m.describe(
        "rez-next env is run on generated repositories with hostile values, arguments and parent environments; the command it starts reports its arguments, environment, directory, input and context file, which are compared with an independent interpretation of the packages; printed forms are read back by a real bash",
        &["bash is the shell", "the variables a shell sets for itself (_, SHLVL, PWD, OLDPWD) are not judged"],
        1500,
    );
    let n = m.size(90, 8);
    parallel(m, n, 8, scenario);
}
