//! F01: copy, move and remove of packages (library functions and CLI commands)
use crate::mon::{crumb, Mon, Rng};
use crate::util;
use rez_next_package::package_copy::{copy_package, PackageCopyConfig};
use rez_next_package::package_move::{move_package, PackageMoveConfig};
use rez_next_package::package_remove::{preview_removal, remove_package_family, remove_package_version, PackageRemoveConfig};
use rez_next_repository::simple_repository::SimpleRepository;
use rez_next_repository::simple_repository::PackageRepository as _;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::Command;

pub type Tree = BTreeMap<String, String>;

/// the bytes of a file as text that tells any two files apart
fn content(b: Vec<u8>) -> String {
    String::from_utf8(b).unwrap_or_else(|e| format!("\u{0}{}:{}", e.as_bytes().len(), e.as_bytes().iter().map(|x| format!("{x:02x}")).collect::<String>()))
}
/// how many bytes of regular files a tree holds
pub fn bytes_in(t: &Tree) -> u64 {
    t.values()
        .filter(|v| v.starts_with("file"))
        .map(|v| v.splitn(3, ' ').nth(2).unwrap_or(""))
        .map(|c| c.strip_prefix('\u{0}').and_then(|c| c.split(':').next()?.parse().ok()).unwrap_or(c.len() as u64))
        .sum()
}
/// names that a payload may hold and that mean nothing special
const DOTTED: [&str; 5] = [".hid", ".git", ".config", ".DS_Store", ".rez"];

/// every path below `p`: kind, permissions, content
pub fn tree(p: &Path) -> Tree {
    fn go(base: &Path, p: &Path, out: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let path = e.path();
            let rel = path.strip_prefix(base).unwrap().to_string_lossy().to_string();
            let Ok(md) = std::fs::symlink_metadata(&path) else { continue };
            let mode = md.permissions().mode() & 0o7777;
            if md.file_type().is_symlink() {
                out.insert(rel, format!("-> {}", std::fs::read_link(&path).unwrap_or_default().display()));
            } else if md.is_dir() {
                out.insert(rel, format!("dir {mode:o}"));
                go(base, &path, out);
            } else {
                out.insert(rel, format!("file {mode:o} {}", std::fs::read(&path).map(content).unwrap_or("?".into())));
            }
        }
    }
    let mut out = Tree::new();
    go(p, p, &mut out);
    out
}
fn under(t: &Tree, p: &str) -> Tree {
    let pre = format!("{p}/");
    t.iter().filter_map(|(k, v)| k.strip_prefix(&pre).map(|x| (x.to_string(), v.clone()))).collect()
}
fn drop_sub(t: &mut Tree, p: &str) {
    let pre = format!("{p}/");
    t.retain(|k, _| k != p && !k.starts_with(&pre));
}
fn delta(got: &Tree, want: &Tree) -> Value {
    let cut = |m: Vec<(&String, &String)>| m.into_iter().take(6).map(|(k, v)| format!("{k}: {}", v.chars().take(60).collect::<String>())).collect::<Vec<_>>();
    json!({"missing": cut(want.iter().filter(|(k, v)| got.get(*k) != Some(v)).collect()), "unexpected": cut(got.iter().filter(|(k, v)| want.get(*k) != Some(v)).collect())})
}
fn one(s: &str) -> bool {
    !s.is_empty() && s != "." && s != ".." && !s.contains('/')
}
/// what a user or a resolve can see: nothing below a hidden directory, no empty directory
fn visible(t: &Tree) -> Tree {
    t.iter()
        .filter(|(k, _)| !k.split('/').any(|c| c.starts_with('.') && c.len() > 1 && !DOTTED.iter().any(|d| c.starts_with(d))))
        .filter(|(k, v)| !v.starts_with("dir") || t.keys().any(|o| o.starts_with(&format!("{k}/"))))
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect()
}
fn open_all(p: &Path) {
    let _ = Command::new("chmod").arg("-R").arg("u+rwX").arg(p).status();
}

fn make_payload(r: &mut Rng, d: &Path, name: &str, ver: &str) {
    util::write(d.join("package.py"), &format!("name = '{name}'\nversion = '{ver}'\n# {}\n", r.below(1_000_000)));
    for i in 0..r.below(6) {
        let sub = *r.pick(&["lib", "lib/deep/er", "bin", "python/a b", ".hid", "lib/ünï", ".git/objects", "__pycache__", "node_modules/x", "build", "tests", ".config", "lib/1.0", "tmp"]);
        let tail = *r.pick(&["", ".txt", ".sh", "~", ".pyc", ".bak", ".tmp", ".json", ".lock", ".old"]);
        let f = d.join(sub).join(match r.below(12) {
            0 => ".DS_Store".to_string(),
            1 => format!(".hid{i}"),
            2 => "package.py".into(),
            3 => format!("new\nline{i}"),
            _ => format!("f{i}{tail}"),
        });
        let n = *r.pick(&[0usize, 1, 17, 300, 70_000]);
        let bytes = match r.below(5) {
            0 => vec![],
            1 => (0..n.min(600)).map(|_| r.below(256) as u8).collect(),
            _ => format!("{}{}", r.below(1000), "z".repeat(n)).into_bytes(),
        };
        if f.exists() {
            continue;
        }
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(&f, bytes).unwrap();
        let mode = *r.pick(&[0o644, 0o755, 0o600, 0o444, 0o555, 0o664, 0o777]);
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(mode)).unwrap();
    }
    if r.chance(1, 3) {
        let _ = std::fs::create_dir_all(d.join("empty/dir"));
    }
    if r.chance(1, 3) {
        let t = *r.pick(&["package.py", "nowhere", "../../..", "lib", "/nonexistent/abs", ".", "../package.py", "/etc/hostname"]);
        let at = d.join(*r.pick(&["alink", "lib/alink", "links/x/alink", "alink.txt"]));
        let _ = std::fs::create_dir_all(at.parent().unwrap());
        let _ = std::os::unix::fs::symlink(t, at);
    }
    if r.chance(1, 5) {
        let p = d.join("ro");
        util::write(p.join("x"), "1");
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(*r.pick(&[0o750, 0o700, 0o775]))).unwrap();
    }
}

/// where `name`/`version` is found: (path as searched, directory it stands for)
fn find(top: &Path, paths: &[String], name: &str, ver: &str) -> Option<(String, String)> {
    for b in paths {
        for leaf in [ver.to_string(), format!("{name}-{ver}")] {
            let rel = format!("{b}/{name}/{leaf}");
            if top.join(&rel).is_dir() {
                let real = std::fs::canonicalize(top.join(&rel)).unwrap();
                let real = real.strip_prefix(std::fs::canonicalize(top).unwrap()).ok()?.to_string_lossy().to_string();
                return Some((rel, real));
            }
        }
    }
    None
}
fn inside(a: &str, b: &str) -> bool {
    a == b || a.starts_with(&format!("{b}/"))
}

pub fn rez(args: &[String], cwd: &Path) -> (i32, String, String) {
    rez_env(args, cwd, &[])
}
/// a command that is answered on its standard input
pub fn rez_in(args: &[String], cwd: &Path, input: &str) -> (i32, String, String) {
    use std::io::Write;
    let bin = std::env::var("REZMON_BIN").expect("REZMON_BIN");
    let mut c = Command::new(Path::new(&bin).join("rez-next"))
        .args(args)
        .current_dir(cwd)
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .unwrap();
    let _ = c.stdin.take().unwrap().write_all(input.as_bytes());
    let o = c.wait_with_output().unwrap();
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string())
}
pub fn rez_env(args: &[String], cwd: &Path, env: &[(&str, String)]) -> (i32, String, String) {
    let bin = std::env::var("REZMON_BIN").expect("REZMON_BIN");
    let o = Command::new(Path::new(&bin).join("rez-next"))
        .args(args)
        .envs(env.iter().map(|(k, v)| (*k, v.as_str())))
        .current_dir(cwd)
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap();
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string())
}

pub fn f01(m: &mut Mon) {
    m.describe(
        "random histories of copies, moves and removals (library calls and rez-next cp/mv/rm; force, keep-source, dry-run, hostile names, overlapping and linked paths, unreadable and undeletable files, killed processes) are replayed on a model of the directory tree; the whole tree around the repositories (content, permissions, links) is compared after every call",
        &["the scratch file system behaves like a POSIX file system", "the checks run as an unprivileged user, so that permissions are enforced"],
        900,
    );
    let n = m.size(200, 10);
    let mut r = m.rng(1);
    let vers = ["1.0", "2.0", "2.0.1", "10.0", "3"];
    let fams = ["foo", "bar", "baz-q"];
    for _ in 0..n {
        if m.full() {
            break;
        }
        let top = util::fresh("f01");
        util::write(top.join("outside/foo/1.0/keep.txt"), "precious");
        util::write(top.join("outside/keep.txt"), "precious");
        util::write(top.join("1.0/keep.txt"), "precious");
        make_payload(&mut r, &top.join("store/real"), "bar", "7.7");
        for b in ["A", "B", "C"] {
            std::fs::create_dir_all(top.join(b)).unwrap();
            if b == "C" && r.chance(1, 2) {
                continue;
            }
            for f in fams {
                for _ in 0..r.below(4) {
                    let v = *r.pick(&vers);
                    let d = top.join(b).join(f).join(v);
                    if !d.exists() {
                        make_payload(&mut r, &d, f, v);
                    }
                }
            }
        }
        if r.chance(1, 3) {
            let _ = std::fs::create_dir_all(top.join("A/bar"));
            let _ = std::os::unix::fs::symlink(top.join("store/real"), top.join("A/bar/7.7"));
        }
        if r.chance(1, 4) {
            make_payload(&mut r, &top.join("B/foo/foo-4.4"), "foo", "4.4");
        }
        // families hold other things than packages
        for f in fams {
            if r.chance(1, 3) && top.join("A").join(f).is_dir() {
                util::write(top.join("A").join(f).join(*r.pick(&["notes.txt", "README", ".hidden"])), "not a package");
            }
        }
        let mut hist: Vec<String> = vec![];
        let mut t = tree(&top);
        for _ in 0..r.range(4, 12) {
            let name = if r.chance(1, 8) { r.pick(&["", ".", "..", "../outside/foo", "../outside", "foo/1.0", "nosuch", "foo/../foo", "foo/"]).to_string() } else { r.pick(&fams).to_string() };
            let ver = match r.below(14) {
                0 => r.pick(&["", ".", "..", "../1.0", "../../outside", "1.0/lib", "/", "../bar", "1.0/"]).to_string(),
                1 => "9.9".into(),
                2 => "7.7".into(),
                3 => "4.4".into(),
                _ => r.pick(&vers).to_string(),
            };
            let mut paths: Vec<String> = ["A", "B", "C"].iter().map(|s| s.to_string()).collect();
            r.shuffle(&mut paths);
            paths.truncate(r.range(1, 3));
            let abs: Vec<PathBuf> = paths.iter().map(|p| top.join(p)).collect();
            let dest_base = match r.below(10) {
                0 => "A".to_string(),
                1 => "B".into(),
                2 => "new/repo".into(),
                3 => format!("A/{}/{}", r.pick(&fams), r.pick(&vers)),
                4 => format!("A/{}/{}/lib", r.pick(&fams), r.pick(&vers)),
                _ => "C".into(),
            };
            let (force, keep) = (r.chance(1, 3), r.chance(1, 4));
            let op = r.below(8);
            let cli = r.chance(1, 4);
            let dry = cli && r.chance(1, 4);
            let before = t.clone();
            let ok_names = one(&name) && one(&ver);
            let found = if ok_names { find(&top, &paths, &name, &ver) } else { None };
            let dest = format!("{dest_base}/{name}/{ver}");
            let desc = format!(
                "{}{}({name:?},{ver:?},paths={paths:?},dest={dest_base:?},force={force},keep={keep},dry={dry})",
                if cli { "cli " } else { "" },
                ["copy", "copy", "copy", "move", "move", "remove", "remove_family", "preview"][op]
            );
            crumb(format!("F01 {hist:?} {desc}"));
            // the model
            let dest_there = top.join(&dest).symlink_metadata().is_ok();
            let expect_copy = |t: &mut Tree, moving: bool, keep: bool| -> Option<(usize, u64)> {
                let (at, real) = found.clone()?;
                if dest_there && !force {
                    return None;
                }
                let dreal = std::fs::canonicalize(top.join(&dest)).ok().and_then(|p| p.strip_prefix(std::fs::canonicalize(&top).unwrap()).ok().map(|p| p.to_string_lossy().to_string())).unwrap_or(dest.clone());
                if inside(&dreal, &real) || inside(&real, &dreal) {
                    return None;
                }
                let sub = under(t, &real);
                let root_mode = t.get(&real).cloned().unwrap_or_default();
                let files = sub.values().filter(|v| !v.starts_with("dir")).count();
                let bytes = bytes_in(&sub);
                drop_sub(t, &dest);
                let mut p = String::new();
                for c in dest.split('/') {
                    if !p.is_empty() {
                        t.entry(p.clone()).or_insert("dir 755".into());
                        p.push('/');
                    }
                    p.push_str(c);
                }
                t.insert(dest.clone(), root_mode);
                for (k, v) in sub {
                    t.insert(format!("{dest}/{k}"), v);
                }
                if moving && !keep {
                    drop_sub(t, &at);
                    let fam = at.rsplit_once('/').unwrap().0.to_string();
                    if under(t, &fam).is_empty() {
                        t.remove(&fam);
                    }
                }
                Some((files, bytes))
            };
            m.count(desc.split('(').next().unwrap(), 1);
            let (want, got): (String, String);
            if cli && ok_names && op < 6 && name != "nosuch" {
                // packages are named as name-version; the command line sees what a repository scan sees
                if ver == "4.4" || ver == "7.7" {
                    continue;
                }
                // a directory that an earlier step left here without a definition is no package
                if paths.iter().any(|b| { let p = format!("{b}/{name}/{ver}"); t.contains_key(&p) && !t.contains_key(&format!("{p}/package.py")) }) {
                    continue;
                }
                let mut a: Vec<String> = vec![];
                let latest = op < 5 && r.chance(1, 4);
                let spec = if latest { name.clone() } else { format!("{name}-{ver}") };
                if op < 5 {
                    a.extend([if op < 3 { "cp".into() } else { "mv".into() }, spec, top.join(&dest_base).display().to_string()]);
                    for p in &abs {
                        a.extend(["--src-path".into(), p.display().to_string()]);
                    }
                    if force {
                        a.push("--force".into());
                    }
                    if op >= 3 && keep {
                        a.push("--keep-source".into());
                    }
                } else {
                    a.extend(["rm".into(), spec]);
                    for p in &abs {
                        a.extend(["--paths".into(), p.display().to_string()]);
                    }
                }
                if dry {
                    a.push("--dry-run".into());
                }
                if latest {
                    // the highest visible version
                    let rtm = crate::repo::rt(1);
                    let mut vs: Vec<rez_next_version::Version> = vec![];
                    for p in &abs {
                        let rp = SimpleRepository::new(p, "x".into());
                        vs.extend(rtm.block_on(rp.find_packages(&name)).unwrap_or_default().iter().filter_map(|p| p.version.clone()));
                    }
                    let Some(best) = vs.into_iter().max() else { continue };
                    let bv = best.as_str().to_string();
                    if bv == "4.4" || bv == "7.7" {
                        continue;
                    }
                    let (code, _, err) = rez(&a, &top);
                    let s = tree(&top);
                    let dest = format!("{dest_base}/{name}/{bv}");
                    if !dry && code == 0 {
                        let from = find_in(&before, &paths, &name, &bv);
                        let same = from.as_ref().map(|f| under(&before, f)) == Some(under(&s, &dest));
                        m.check("without a version the latest package is taken", same, || json!({"history": hist, "call": desc, "args": a, "latest": bv, "stderr": err}));
                    } else {
                        m.check("a dry run or a refused command changes nothing", visible(&s) == visible(&before), || json!({"call": desc, "args": a, "delta": delta(&visible(&s), &visible(&before))}));
                    }
                    hist.push(format!("{desc} latest={bv} -> {code}"));
                    t = s;
                    continue;
                }
                let w = if op < 5 {
                    let mut t2 = t.clone();
                    let w = expect_copy(&mut t2, op >= 3, keep).is_some();
                    if w && !dry {
                        t = t2;
                    }
                    // a dry run does not look for overlaps
                    if dry { found.is_some() && (!dest_there || force) } else { w }
                } else {
                    if !dry {
                        for b in &paths {
                            drop_sub(&mut t, &format!("{b}/{name}/{ver}"));
                        }
                    }
                    true
                };
                let (code, out, err) = rez(&a, &top);
                want = w.to_string();
                got = (code == 0).to_string();
                hist.push(format!("{desc} -> {code}"));
                m.check("a command succeeds exactly when it did what it was asked", want == got, || json!({"history": hist, "args": a, "want": want, "got": got, "stdout": out, "stderr": err}));
            } else if cli {
                continue;
            } else {
                match op {
                    0..=2 => {
                        let w = expect_copy(&mut t, false, false);
                        let cfg = PackageCopyConfig { packages_path: abs.clone(), force, ..Default::default() };
                        let res = m.guard("no call panics", || json!(desc), || copy_package(&name, &ver, &top.join(&dest_base), &cfg));
                        want = w.map(|(f, b)| format!("{f} {b}")).unwrap_or("Err".into());
                        got = match res {
                            Some(Ok(x)) => format!("{} {}", x.files_copied, x.bytes_copied),
                            Some(Err(_)) => "Err".into(),
                            None => "panic".into(),
                        };
                    }
                    3 | 4 => {
                        let w = expect_copy(&mut t, true, keep);
                        let cfg = PackageMoveConfig { packages_path: abs.clone(), force, keep_source: keep, ..Default::default() };
                        let res = m.guard("no call panics", || json!(desc), || move_package(&name, &ver, &top.join(&dest_base), &cfg));
                        want = w.map(|(f, b)| format!("{f} {b} {}", !keep)).unwrap_or("Err".into());
                        got = match res {
                            Some(Ok(x)) => format!("{} {} {}", x.files_copied, x.bytes_copied, x.source_removed),
                            Some(Err(_)) => "Err".into(),
                            None => "panic".into(),
                        };
                    }
                    5 => {
                        let prune = r.chance(2, 3);
                        let mut k = 0;
                        let mut gone = BTreeSet::new();
                        let mut freed = Tree::new();
                        for b in &paths {
                            let p = format!("{b}/{name}/{ver}");
                            if ok_names && top.join(&p).is_dir() {
                                freed.extend(under(&t, &p).into_iter().map(|(k, v)| (format!("{p}/{k}"), v)));
                                drop_sub(&mut t, &p);
                                gone.insert(p);
                                k += 1;
                            }
                        }
                        if k > 0 && prune {
                            for b in &paths {
                                let f = format!("{b}/{name}");
                                if t.contains_key(&f) && under(&t, &f).is_empty() {
                                    t.remove(&f);
                                }
                            }
                        }
                        let pv: BTreeSet<String> = preview_removal(&name, Some(&ver), &abs).iter().filter_map(|p| p.strip_prefix(&top).ok().map(|p| p.to_string_lossy().to_string())).collect();
                        m.check("a preview lists what a removal then removes", pv == gone, || json!({"call": desc, "preview": pv, "want": gone}));
                        let cfg = PackageRemoveConfig { packages_path: abs.clone(), force: true, prune_empty_families: prune };
                        let res = remove_package_version(&name, &ver, &cfg);
                        if k > 0 {
                            let left: Vec<String> = paths.iter().map(|b| format!("{b}/{name}")).filter(|f| top.join(f).is_dir() && std::fs::read_dir(top.join(f)).is_ok_and(|mut d| d.next().is_none())).collect();
                            let emptied: Vec<String> = gone.iter().map(|p| p.rsplit_once('/').unwrap().0.to_string()).filter(|f| under(&t, f).is_empty()).collect();
                            m.check("families emptied by a removal go exactly when pruning is asked for", if prune { left.is_empty() } else { emptied.iter().all(|f| top.join(f).is_dir()) }, || json!({"call": desc, "prune": prune, "left": left, "emptied": emptied}));
                        }
                        want = if ok_names { k.to_string() } else { "refused".into() };
                        got = match res {
                            Ok(x) if x.versions_removed == 0 && !ok_names => "refused".into(),
                            Ok(x) => {
                                m.check("the removed paths are the ones reported", x.removed_paths.iter().filter_map(|p| p.strip_prefix(&top).ok().map(|p| p.to_string_lossy().to_string())).collect::<BTreeSet<_>>() == gone && x.removed_paths.len() == x.versions_removed, || json!({"call": desc, "reported": x.removed_paths, "removed": gone}));
                                // a package that is only a link frees what the link takes, which is not specified
                                if !gone.iter().any(|p| before.get(p).is_some_and(|v| v.starts_with("->"))) {
                                    let links: u64 = freed.values().filter(|v| v.starts_with("->")).map(|v| v.len() as u64).sum();
                                    let least = bytes_in(&freed);
                                    m.check("the bytes freed are the bytes the package held", (least..=least + links).contains(&x.bytes_freed), || json!({"call": desc, "reported": x.bytes_freed, "files_held": least, "history": hist}));
                                }
                                x.versions_removed.to_string()
                            }
                            Err(_) => "refused".into(),
                        };
                    }
                    6 => {
                        if r.chance(2, 3) {
                            continue;
                        }
                        let ok = one(&name);
                        let mut k = 0;
                        for b in &paths {
                            let p = format!("{b}/{name}");
                            if ok && top.join(&p).is_dir() {
                                drop_sub(&mut t, &p);
                                k += 1;
                            }
                        }
                        let pv: BTreeSet<PathBuf> = preview_removal(&name, None, &abs).into_iter().collect();
                        let there: BTreeSet<PathBuf> = abs.iter().map(|a| a.join(&name)).filter(|p| ok && p.is_dir()).collect();
                        m.check("a preview lists what a removal then removes", pv == there, || json!({"call": desc, "preview": pv, "want": there}));
                        let cfg = PackageRemoveConfig { packages_path: abs.clone(), force: true, prune_empty_families: true };
                        let res = remove_package_family(&name, &cfg);
                        want = if ok { k.to_string() } else { "refused".into() };
                        got = match res {
                            Ok(x) if x.versions_removed == 0 && !ok => "refused".into(),
                            Ok(x) => x.versions_removed.to_string(),
                            Err(_) => "refused".into(),
                        };
                    }
                    _ => {
                        let ps = preview_removal(&name, r.chance(1, 2).then_some(ver.as_str()), &abs);
                        want = "true".into();
                        got = ps.iter().all(|p| abs.iter().any(|a| p.starts_with(a) && p != a) && !p.to_string_lossy().contains("..")).to_string();
                    }
                }
                hist.push(format!("{desc} -> {got}"));
                m.check("a call reports what it did", want == got, || json!({"history": hist, "want": want, "got": got, "before": before.keys().take(60).collect::<Vec<_>>()}));
            }
            if want == "Err" || want == "refused" || want == "false" {
                m.count("refused", 1);
            }
            let s = tree(&top);
            m.seen(&(s.keys().cloned().collect::<Vec<_>>()));
            if !m.check("a call changes exactly what it says and nothing else", visible(&s) == visible(&t), || json!({"history": hist, "delta": delta(&visible(&s), &visible(&t))})) {
                break;
            }
            t = s;
        }
        open_all(&top);
        util::rm(&top);
    }
    replaced(m);
    faults(m);
    rm_cli(m);
    kills(m);
}

fn find_in(t: &Tree, paths: &[String], name: &str, ver: &str) -> Option<String> {
    paths.iter().map(|b| format!("{b}/{name}/{ver}")).find(|p| t.contains_key(p))
}

/// what is put over an existing package is the new package, with nothing of the old one
fn replaced(m: &mut Mon) {
    let mut r = m.rng(7);
    for _ in 0..m.size(260, 15) {
        if m.full() || m.out_of_time() {
            return;
        }
        let top = util::fresh("f01o");
        let (a, c) = (top.join("A/foo/1.0"), top.join("C/foo/1.0"));
        make_payload(&mut r, &a, "foo", "1.0");
        make_payload(&mut r, &c, "foo", "1.0");
        let link = r.chance(1, 6);
        if link {
            // the old package is a link to a directory elsewhere, which stays
            std::fs::create_dir_all(top.join("store")).unwrap();
            std::fs::rename(&c, top.join("store/real")).unwrap();
            std::os::unix::fs::symlink(top.join("store/real"), &c).unwrap();
        }
        let (mv, keep) = (r.chance(1, 2), r.chance(1, 3));
        let others = r.chance(1, 2);
        if others {
            make_payload(&mut r, &top.join("A/foo/1.0.1"), "foo", "1.0.1");
            make_payload(&mut r, &top.join("C/foo/1.0.1"), "foo", "1.0.1");
        }
        let before = tree(&top);
        let paths = vec![top.join("A")];
        let res = if mv {
            move_package("foo", "1.0", &top.join("C"), &PackageMoveConfig { packages_path: paths, force: true, keep_source: keep, ..Default::default() }).map(|x| (x.files_copied, x.bytes_copied)).map_err(|e| e.to_string())
        } else {
            copy_package("foo", "1.0", &top.join("C"), &PackageCopyConfig { packages_path: paths, force: true, ..Default::default() }).map(|x| (x.files_copied, x.bytes_copied)).map_err(|e| e.to_string())
        };
        let after = tree(&top);
        let src = under(&before, "A/foo/1.0");
        let mut want = before.clone();
        drop_sub(&mut want, "C/foo/1.0");
        want.insert("C/foo/1.0".into(), before["A/foo/1.0"].clone());
        for (k, v) in &src {
            want.insert(format!("C/foo/1.0/{k}"), v.clone());
        }
        if mv && !keep {
            drop_sub(&mut want, if others { "A/foo/1.0" } else { "A/foo" });
        }
        m.count("packages replaced", 1);
        m.seen(&("replaced", mv, keep, link, others, src.len()));
        let info = || json!({"move": mv, "keep_source": keep, "old_is_link": link, "result": format!("{res:?}"), "delta": delta(&visible(&after), &visible(&want))});
        m.check("a replaced package is the new package, whole and alone", visible(&after) == visible(&want), info);
        m.check("a replacement reports what it copied", res == Ok((src.values().filter(|v| !v.starts_with("dir")).count(), bytes_in(&src))), info);
        open_all(&top);
        util::rm(&top);
    }
}

/// a step that fails costs nothing: neither the source nor what is at the destination
fn faults(m: &mut Mon) {
    let mut r = m.rng(2);
    for i in 0..m.size(60, 15) {
        if m.full() {
            return;
        }
        let top = util::fresh("f01f");
        let (src, dst) = (top.join("A/foo/1.0"), top.join("C"));
        for k in 0..r.range(2, 12) {
            util::write(src.join(format!("d{}/f{k}", k % 3)), &format!("{k}"));
        }
        util::write(src.join("package.py"), "name = 'foo'\nversion = '1.0'\n");
        let replacing = r.chance(2, 3);
        if replacing {
            util::write(dst.join("foo/1.0/package.py"), "name = 'foo'\nversion = '1.0'\n# old\n");
            util::write(dst.join("foo/1.0/old/keep"), "old");
        }
        std::fs::create_dir_all(&dst).unwrap();
        let kind = r.below(4);
        let set = |p: &Path, mode| std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).unwrap();
        match kind {
            0 => {
                // an unreadable file somewhere in the source
                util::write(src.join("d1/secret"), "s");
                set(&src.join("d1/secret"), 0o000);
            }
            1 => {
                util::write(src.join("zz/in"), "s");
                set(&src.join("zz"), 0o000);
            }
            2 => {
                // the destination cannot be written
                let _ = std::fs::create_dir_all(dst.join("foo"));
                set(&dst.join("foo"), 0o555);
            }
            _ => {
                // the source cannot be deleted
                util::write(src.join("stuck/x"), "s");
                set(&src.join("stuck"), 0o555);
            }
        }
        let before = tree(&top);
        let mv = kind == 3 || r.chance(1, 2);
        let cli = r.chance(1, 4);
        let failed = if cli {
            let mut a: Vec<String> = vec![if mv { "mv" } else { "cp" }.into(), "foo-1.0".into(), dst.display().to_string(), "--src-path".into(), top.join("A").display().to_string()];
            if replacing {
                a.push("--force".into());
            }
            rez(&a, &top).0 != 0
        } else if mv {
            move_package("foo", "1.0", &dst, &PackageMoveConfig { packages_path: vec![top.join("A")], force: replacing, ..Default::default() }).is_err()
        } else {
            copy_package("foo", "1.0", &dst, &PackageCopyConfig { packages_path: vec![top.join("A")], force: replacing, ..Default::default() }).is_err()
        };
        let after = tree(&top);
        m.count("injected faults", 1);
        m.seen(&("fault", kind, mv, cli, replacing));
        let info = || json!({"case": i, "fault": (["unreadable file", "unreadable directory", "destination not writable", "source not deletable"][kind]), "move": mv, "cli": cli, "replacing": replacing, "reported_error": failed, "delta": delta(&visible(&after), &visible(&before))});
        m.check("a copy or move that could not be completed is reported", failed, info);
        if kind < 3 {
            m.check("a failed copy or move leaves source and destination as they were", visible(&after) == visible(&before), info);
        } else {
            m.check("a move that cannot remove its source has copied all of it", under(&after, "C/foo/1.0") == under(&before, "A/foo/1.0"), info);
            let left = under(&after, "A/foo/1.0");
            m.check("a move never leaves a visible package that lost part of its payload", left.is_empty() || left == under(&before, "A/foo/1.0"), info);
        }
        open_all(&top);
        util::rm(&top);
    }
}

/// rm NAME, rm --family and rm -i: what is asked for and confirmed goes, everything else stays
fn rm_cli(m: &mut Mon) {
    let mut r = m.rng(5);
    for _ in 0..m.size(160, 10) {
        if m.full() || m.out_of_time() {
            return;
        }
        let top = util::fresh("f01r");
        let fams = ["foo", "foobar", "foo-extra", "fo", "foo_1"];
        let vers = ["1", "1.0", "10.0", "2.0", "1.0.0"];
        let repos = ["A", "B", "C"];
        let mut all: Vec<(usize, &str, &str)> = vec![];
        for f in fams {
            for (k, b) in repos.iter().enumerate() {
                for v in vers {
                    if r.chance(1, 3) {
                        make_payload(&mut r, &top.join(b).join(f).join(v), f, v);
                        all.push((k, f, v));
                    }
                }
            }
        }
        let hostile = r.chance(1, 3);
        if hostile {
            // a package that claims to be somewhere else
            let (n, v) = *r.pick(&[("foo", "../../precious"), ("../precious", "1.0"), ("foo", ".."), ("..", "precious"), ("foo", "1.0/../../../precious/1")]);
            util::write(top.join("A/foo/6.6/package.py"), &format!("name = '{n}'\nversion = '{v}'\n"));
        }
        util::write(top.join("precious/1/package.py"), "name = 'precious'\nversion = '1'\n");
        util::write(top.join("A/foo/notes.txt"), "not a package");
        for b in repos {
            let _ = std::fs::create_dir_all(top.join(b));
        }
        let searched: Vec<usize> = (0..3).filter(|_| r.chance(2, 3)).collect();
        if searched.is_empty() {
            util::rm(&top);
            continue;
        }
        let fam = *r.pick(&fams);
        let ver = r.chance(1, 3).then(|| *r.pick(&vers));
        let hit: Vec<(usize, &str, &str)> = all.iter().filter(|(k, f, v)| searched.contains(k) && *f == fam && ver.is_none_or(|x| x == *v)).cloned().collect();
        let mut a: Vec<String> = vec!["rm".into(), ver.map(|v| format!("{fam}-{v}")).unwrap_or(fam.into())];
        for k in &searched {
            a.extend(["--paths".into(), top.join(repos[*k]).display().to_string()]);
        }
        let family = ver.is_none() && r.chance(1, 2);
        let dry = r.chance(1, 4);
        let (mut input, mut gone) = (String::new(), hit.clone());
        let mut exact = true;
        let yes = ["y", "yes", "Y", " y "];
        let no = ["", "n", "no", "yn", "sure"];
        if family {
            a.push("--family".into());
            match r.below(4) {
                0 => a.push("--force".into()),
                1 => a.push("--force-family".into()),
                2 => input = format!("{}\n", r.pick(&yes)),
                _ => {
                    input = if r.chance(1, 4) { String::new() } else { format!("{}\n", r.pick(&no)) };
                    gone.clear();
                }
            }
        } else if r.chance(1, 2) {
            a.push("-i".into());
            let mut n = 0;
            for _ in &hit {
                if r.chance(1, 2) {
                    input.push_str(&format!("{}\n", r.pick(&yes)));
                    n += 1;
                } else {
                    input.push_str(&format!("{}\n", r.pick(&no)));
                }
            }
            if n == 0 {
                gone.clear();
            } else if n < hit.len() {
                exact = false;
            }
            m.seen(&("asked", n, hit.len()));
        }
        if dry {
            a.push("--dry-run".into());
            gone.clear();
            exact = true;
        }
        // a package that cannot be removed is reported, and keeps nothing else from being removed
        let stuck = (exact && !gone.is_empty() && r.chance(1, 5)).then(|| *r.pick(&gone));
        if let Some((k, f, v)) = stuck {
            let p = top.join(repos[k]).join(f).join(v).join("stuck");
            util::write(p.join("x"), "s");
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o555)).unwrap();
        }
        let raw = tree(&top);
        let before = visible(&raw);
        let (code, out, err) = rez_in(&a, &top, &input);
        let after = visible(&tree(&top));
        m.count("rm commands", 1);
        m.seen(&("rm", family, dry, hit.len(), gone.len()));
        let info = || json!({"args": a, "stdin": input, "exit": code, "stdout": out, "stderr": err, "packages": all, "searched": searched});
        // what a hostile package says about itself is never followed out of its family
        let lies = hostile && fam == "foo" && searched.contains(&0);
        let mut keep = before.clone();
        for (k, f, v) in &hit {
            drop_sub(&mut keep, &format!("{}/{f}/{v}", repos[*k]));
        }
        if lies {
            drop_sub(&mut keep, "A/foo/6.6");
        }
        let kept = keep.iter().all(|(k, v)| after.get(k) == Some(v) || v.starts_with("dir"));
        m.check("rm touches nothing but the packages named", kept, || json!({"case": info(), "delta": delta(&after, &keep)}));
        if lies {
            util::rm(&top);
            continue;
        }
        if let Some((k, f, v)) = stuck {
            m.count("packages that cannot be removed", 1);
            m.check("rm reports a package it could not remove", code != 0, info);
            // which of the packages of that version goes first when several are named is not specified
            let left = gone.iter().filter(|x| x.1 != f || x.2 != v).any(|(k, f, v)| after.contains_key(&format!("{}/{f}/{v}/package.py", repos[*k])));
            m.check("one package that cannot be removed does not keep the others", !left, || json!({"case": info(), "stuck": (repos[k], f, v)}));
            open_all(&top);
            util::rm(&top);
            continue;
        }
        m.check("rm succeeds when everything confirmed is gone", code == 0, info);
        if exact {
            let mut want = raw.clone();
            for (k, f, v) in &gone {
                drop_sub(&mut want, &format!("{}/{f}/{v}", repos[*k]));
            }
            let want = visible(&want);
            m.check("rm removes exactly what was asked for and confirmed", after == want, || json!({"case": info(), "delta": delta(&after, &want)}));
        } else {
            // the order of the questions is not promised: whole packages go, as many as were confirmed
            let n = input.lines().filter(|l| yes.contains(l)).count();
            let left = hit.iter().filter(|(k, f, v)| after.contains_key(&format!("{}/{f}/{v}/package.py", repos[*k]))).count();
            m.check("rm -i removes as many packages as were confirmed", left == hit.len() - n, || json!({"case": info(), "left": left}));
            for (k, f, v) in &hit {
                let p = format!("{}/{f}/{v}", repos[*k]);
                let sub = under(&after, &p);
                m.check("a package is removed as a whole or not at all", sub.is_empty() || sub == under(&before, &p), || json!({"case": info(), "package": p}));
            }
        }
        open_all(&top);
        util::rm(&top);
    }
}

fn kills(m: &mut Mon) {
    let mut r = m.rng(3);
    let exe = std::env::current_exe().unwrap();
    let rtm = crate::repo::rt(1);
    let mut full_run = 0u64;
    for i in 0..m.size(90, 12) {
        if m.full() {
            return;
        }
        let top = util::fresh("f01k");
        for k in 0..250 {
            util::write(top.join(format!("A/big/1.0/d{}/f{k}", k % 12)), &"x".repeat(k));
        }
        util::write(top.join("A/big/1.0/package.py"), "name = 'big'\nversion = '1.0'\n");
        std::fs::create_dir_all(top.join("C")).unwrap();
        let replacing = r.chance(1, 2);
        if replacing {
            util::write(top.join("C/big/1.0/package.py"), "name = 'big'\nversion = '1.0'\n# old\n");
            for k in 0..40 {
                util::write(top.join(format!("C/big/1.0/old/f{k}")), "old");
            }
        }
        let (src, old) = (tree(&top.join("A/big/1.0")), tree(&top.join("C/big/1.0")));
        let mv = i == 0 || r.chance(1, 2);
        let mut c = Command::new(&exe).arg("child:cppkg").arg(if mv { "mv" } else { "cp" }).arg(&top).spawn().unwrap();
        if full_run == 0 {
            let t0 = std::time::Instant::now();
            let _ = c.wait();
            full_run = t0.elapsed().as_micros() as u64;
        } else {
            std::thread::sleep(std::time::Duration::from_micros(full_run * r.range(5, 115) as u64 / 100));
        }
        let _ = c.kill();
        let done = c.wait().map(|s| s.success()).unwrap_or(false);
        let (s, d) = (tree(&top.join("A/big/1.0")), tree(&top.join("C/big/1.0")));
        let state = |x: &Tree| if x.is_empty() { "absent" } else if *x == src { "complete" } else if *x == old { "old" } else { "partial" };
        let (a, b) = (state(&s), state(&d));
        m.count(&format!("killed: source {a}, destination {b}"), 1);
        m.seen(&("kill", a, b, mv, replacing, done));
        let info = || json!({"kill": i, "move": mv, "replacing": replacing, "source": a, "destination": b, "finished": done});
        m.check("a copy or move that is cut short leaves the package complete somewhere", a == "complete" || b == "complete", info);
        m.check("a copy that is cut short leaves the source as it was", mv || a == "complete", info);
        m.check("a copy or move that is cut short never shows part of a package", a != "partial" && b != "partial", info);
        let mut seen = vec![];
        for base in ["A", "C"] {
            let rp = SimpleRepository::new(top.join(base), "x".into());
            let ps = rtm.block_on(rp.find_packages("big")).unwrap_or_default();
            seen.push(ps.len());
        }
        let want = vec![usize::from(a != "absent"), usize::from(b != "absent")];
        m.check("a repository lists a package exactly when it is there", seen == want, || json!({"kill": info(), "listed": seen}));
        util::rm(&top);
    }
}

pub fn child_cppkg(args: &[String]) -> i32 {
    let top = PathBuf::from(&args[1]);
    let ok = if args[0] == "mv" {
        move_package("big", "1.0", &top.join("C"), &PackageMoveConfig { packages_path: vec![top.join("A")], force: true, ..Default::default() }).is_ok()
    } else {
        copy_package("big", "1.0", &top.join("C"), &PackageCopyConfig { packages_path: vec![top.join("A")], force: true, ..Default::default() }).is_ok()
    };
    i32::from(!ok)
}
