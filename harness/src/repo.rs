//! D01 what the repository views report vs what is on disk; D02 lifecycle of packages in a
//! filesystem repository; Q01 searches and reverse-dependency listings.
use crate::mon::{Mon, Rng, crumb};
use crate::util;
use crate::vers::{gen_range, mcmp, model};
use rez_next_repository::package_repository::PackageRepository as LifeRepo;
use rez_next_repository::simple_repository::{PackageRepository as SimpleTrait, RepositoryManager, SimpleRepository};
use rez_next_repository::{FileSystemRepository, FilesystemPackageRepository, PackageSearchCriteria, Repository, RepositoryScanner, ScannerConfig};
use rez_next_version::Version;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::sync::Arc;

const FAMS: [&str; 16] =
    ["python", "py", "maya", "agit", "xpyc", "node_modulesx", "Maya", "libfoo", "foo_bar", "a", "PyQt", "houdini18", "cxx", "osvn", "tool", "zz_top"];
const VERS: [&str; 20] =
    ["1.0", "1.1", "1.10", "1.9", "2", "2.0", "2.0.beta", "10", "0.1", "1.0.0", "3a", "3_b", "3.11.4", "3.9", "1.0.rc1", "100", "99", "2022.1", "1.0.RC1", "3A"];

#[derive(Clone, Debug, Hash)]
pub struct DPkg {
    pub version: Option<String>,
    pub requires: Vec<String>,
    pub build_requires: Vec<String>,
    pub desc: String,
    pub tools: Vec<String>,
    pub plugin_for: Vec<String>,
    pub nvariants: usize,
    pub broken: bool,
    pub ignored: bool,
}
/// family -> directory name ("" = the family directory itself) -> package
pub type Disk = BTreeMap<String, BTreeMap<String, DPkg>>;

fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| format!("'{s}'")).collect::<Vec<_>>().join(", "))
}
pub fn package_py(name: &str, p: &DPkg) -> String {
    let mut s = format!("name = '{name}'\n");
    if let Some(v) = &p.version {
        s += &format!("version = '{v}'\n");
    }
    if !p.desc.is_empty() {
        s += &format!("description = '{}'\n", p.desc);
    }
    s += &format!("requires = {}\n", strs(&p.requires));
    s += &format!("build_requires = {}\n", strs(&p.build_requires));
    s += &format!("tools = {}\n", strs(&p.tools));
    if !p.plugin_for.is_empty() {
        s += &format!("plugin_for = {}\n", strs(&p.plugin_for));
    }
    if p.nvariants > 0 {
        s += &format!("variants = [{}]\n", (0..p.nvariants).map(|i| format!("['v{i}-1']")).collect::<Vec<_>>().join(", "));
    }
    if p.broken {
        s += "requires = [ 'a', (\n";
    }
    s
}
fn gen_pkg(r: &mut Rng, fam: &str, v: Option<&str>, fams: &[&str]) -> DPkg {
    let req = |r: &mut Rng| {
        let f = *r.pick(fams);
        match r.below(6) {
            0 => f.to_string(),
            1 => format!("{f}-1+"),
            2 => format!("{f}-2"),
            3 => format!("!{f}-5"),
            4 => format!("{f}>=0.5"),
            _ => format!("{f}-1.0|2.0"),
        }
    };
    let n = r.below(3);
    let requires = (0..n).map(|_| req(r)).collect();
    let n = r.below(2);
    let build_requires = (0..n).map(|_| req(r)).collect();
    DPkg {
        version: v.map(|s| s.to_string()),
        requires,
        build_requires,
        desc: if r.chance(1, 3) { format!("the {fam} package {}", r.below(9)) } else { String::new() },
        tools: if r.chance(1, 3) { vec![format!("{}tool", fam), "run".into()] } else { vec![] },
        plugin_for: if r.chance(1, 4) { vec![r.pick(fams).to_string()] } else { vec![] },
        nvariants: if r.chance(1, 4) { r.range(1, 3) } else { 0 },
        broken: false,
        ignored: false,
    }
}
pub fn gen_disk(r: &mut Rng, broken: bool) -> Disk {
    let mut fams = FAMS.to_vec();
    r.shuffle(&mut fams);
    let n = r.range(1, 7);
    let fams = &fams[..n];
    let mut d = Disk::new();
    for f in fams {
        let mut vs = VERS.to_vec();
        r.shuffle(&mut vs);
        let mut e = BTreeMap::new();
        if r.chance(1, 10) {
            let v = if r.chance(1, 2) { None } else { Some("1.5") };
            e.insert(String::new(), gen_pkg(r, f, v, fams));
        } else {
            vs.retain(|v| *v != "2.0" && *v != "1.0.0"); // other spellings of "2" and "1.0"
            for v in &vs[..r.range(1, 5)] {
                let mut p = gen_pkg(r, f, Some(v), fams);
                p.broken = broken && r.chance(1, 12);
                p.ignored = r.chance(1, 5);
                let dir = if r.chance(1, 10) { format!("dir{v}") } else { v.to_string() };
                e.insert(dir, p);
            }
        }
        d.insert(f.to_string(), e);
    }
    d
}
fn write_pkg(root: &Path, f: &str, dir: &str, p: &DPkg) {
    let d = if dir.is_empty() { root.join(f) } else { root.join(f).join(dir) };
    util::write(d.join("package.py"), &package_py(f, p));
    if p.ignored && !dir.is_empty() {
        // what is in a marker does not matter
        let text = if p.desc.len() % 2 == 1 { "hidden on purpose\n" } else { "" };
        util::write(root.join(f).join(format!(".ignore{dir}")), text);
    }
}
pub fn write_disk(root: &Path, d: &Disk, r: &mut Rng) {
    for (f, e) in d {
        for (dir, p) in e {
            write_pkg(root, f, dir, p);
            if r.chance(1, 4) && !dir.is_empty() {
                util::write(root.join(f).join(dir).join("bin/run"), "#!/bin/sh\n");
            }
            // package.py takes precedence over other definition files
            if r.chance(1, 8) {
                let d = if dir.is_empty() { root.join(f) } else { root.join(f).join(dir) };
                let v = p.version.as_ref().map(|v| format!("version: '{v}'\n")).unwrap_or_default();
                util::write(d.join(*r.pick(&["package.yaml", "package.json"])), &format!("name: {f}\n{v}description: the other file\n"));
            }
        }
        // an unfinished copy is not a package
        if r.chance(1, 4) && !e.contains_key("") {
            let v = r.pick(&VERS);
            util::write(root.join(f).join(format!(".{}{v}", r.pick(&["tmp-", "copying-", ""]))).join("package.py"), &format!("name = '{f}'\nversion = '{v}.77'\nplugin_for = ['python', 'maya', 'py']\nrequires = ['python', 'maya', 'py']\n"));
        }
        if r.chance(1, 4) {
            util::write(root.join(f).join("README.md"), "not a package\n");
        }
    }
    if r.chance(1, 3) {
        std::fs::create_dir_all(root.join("empty_family")).unwrap();
    }
    if r.chance(1, 3) {
        util::write(root.join("stray.txt"), "x");
    }
}
/// packages a repository view must report (not ignored, readable)
fn visible<'a>(d: &'a Disk, f: &str) -> Vec<(&'a str, &'a DPkg)> {
    d.get(f).map(|e| e.iter().filter(|(_, p)| !p.ignored && !p.broken).map(|(k, p)| (k.as_str(), p)).collect()).unwrap_or_default()
}
fn has_broken(d: &Disk, f: &str) -> bool {
    d.get(f).is_some_and(|e| e.values().any(|p| p.broken && !p.ignored))
}
fn vkey(v: &Option<String>) -> String {
    v.clone().unwrap_or_default()
}
fn cmp_opt(a: &str, b: &str) -> std::cmp::Ordering {
    match (a.is_empty(), b.is_empty()) {
        (true, true) => std::cmp::Ordering::Equal,
        (true, false) => std::cmp::Ordering::Less,
        (false, true) => std::cmp::Ordering::Greater,
        _ => mcmp(&model(a), &model(b)),
    }
}
fn latest_of(ps: &[(&str, &DPkg)]) -> Option<String> {
    let mut vs: Vec<String> = ps.iter().map(|(_, p)| vkey(&p.version)).collect();
    vs.sort_by(|a, b| cmp_opt(a, b));
    vs.pop()
}
type Facts = (String, String, Vec<String>, Vec<String>, Vec<String>, String, usize);
fn facts(p: &rez_next_package::Package) -> Facts {
    (
        p.name.clone(),
        p.version.as_ref().map(|v| v.as_str().to_string()).unwrap_or_default(),
        p.requires.clone(),
        p.build_requires.clone(),
        p.tools.clone(),
        p.description.clone().unwrap_or_default(),
        p.variants.len(),
    )
}
fn mfacts(f: &str, p: &DPkg) -> Facts {
    (f.to_string(), vkey(&p.version), p.requires.clone(), p.build_requires.clone(), p.tools.clone(), p.desc.clone(), p.nvariants)
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
pub fn rt(threads: usize) -> tokio::runtime::Runtime {
    if threads <= 1 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap()
    }
}

/// One random lookup on a SimpleRepository, judged against the disk model.
async fn probe_simple(repo: &SimpleRepository, d: &Disk, root: &Path, fam: &str, what: usize, vpick: usize) -> Result<&'static str, Value> {
    let vis = visible(d, fam);
    let broken = has_broken(d, fam);
    let ctx = |got: Value| json!({"family": fam, "disk": format!("{:?}", d.get(fam)), "broken_definition": broken, "got": got});
    match what {
        0 => match repo.find_packages(fam).await {
            Err(e) if broken => {
                let _ = e;
                Ok("find: broken family reported")
            }
            Err(e) => Err(ctx(json!(format!("error {e}")))),
            Ok(_) if broken => Err(ctx(json!("a family with an unreadable definition was answered"))),
            Ok(ps) => {
                let got = sorted(ps.iter().map(|p| facts(p)).collect());
                let want = sorted(vis.iter().map(|(_, p)| mfacts(fam, p)).collect());
                let files: BTreeSet<String> = ps.iter().map(|p| p.filepath.clone().unwrap_or_default()).collect();
                let wfiles: BTreeSet<String> = vis
                    .iter()
                    .map(|(dir, _)| if dir.is_empty() { root.join(fam).join("package.py") } else { root.join(fam).join(dir).join("package.py") })
                    .map(|p| p.to_string_lossy().to_string())
                    .collect();
                if got == want && files == wfiles { Ok("find") } else { Err(ctx(json!({"packages": got, "want": want, "files": files}))) }
            }
        },
        1 => {
            let v = VERS[vpick % VERS.len()];
            match repo.get_package(fam, Some(v)).await {
                Err(_) if broken => Ok("get: broken family reported"),
                Err(e) => Err(ctx(json!(format!("error {e}")))),
                Ok(_) if broken => Err(ctx(json!("a family with an unreadable definition was answered"))),
                Ok(got) => {
                    let want = vis.iter().find(|(_, p)| p.version.as_deref().is_some_and(|w| cmp_opt(w, v).is_eq())).map(|(_, p)| mfacts(fam, p));
                    let got = got.map(|p| facts(&p));
                    if got == want { Ok("get") } else { Err(ctx(json!({"asked": v, "answer": got, "want": want}))) }
                }
            }
        }
        2 => match repo.get_package(fam, None).await {
            Err(_) if broken => Ok("latest: broken family reported"),
            Err(e) => Err(ctx(json!(format!("error {e}")))),
            Ok(_) if broken => Err(ctx(json!("a family with an unreadable definition was answered"))),
            Ok(got) => {
                let want = latest_of(&vis);
                let got = got.map(|p| facts(&p).1);
                if got == want { Ok("latest") } else { Err(ctx(json!({"latest": got, "want": want}))) }
            }
        },
        _ => match repo.list_packages().await {
            Err(e) => Err(ctx(json!(format!("error {e}")))),
            Ok(names) => {
                let want: Vec<String> = d.keys().filter(|f| !visible(d, f).is_empty()).cloned().collect();
                if names == want { Ok("list") } else { Err(json!({"listed": names, "want": want})) }
            }
        },
    }
}

fn mutate(r: &mut Rng, root: &Path, d: &mut Disk) -> String {
    let fams: Vec<String> = d.keys().cloned().collect();
    let f = r.pick(&fams).clone();
    match r.below(5) {
        0 => {
            // new version of an existing family
            if !d[&f].contains_key("") {
                let v = format!("{}.{}", 200 + r.below(50), r.below(50));
                let p = gen_pkg(r, &f, Some(&v), &["python", "maya"]);
                write_pkg(root, &f, &v, &p);
                d.get_mut(&f).unwrap().insert(v, p);
            }
            "add version".into()
        }
        1 => {
            let n = format!("newfam{}", r.below(1000));
            let p = gen_pkg(r, &n, Some("1.0"), &["python", "maya"]);
            write_pkg(root, &n, "1.0", &p);
            d.entry(n).or_default().insert("1.0".into(), p);
            "add family".into()
        }
        2 => {
            let dirs: Vec<String> = d[&f].keys().filter(|k| !k.is_empty()).cloned().collect();
            if let Some(k) = dirs.first().cloned() {
                util::rm(&root.join(&f).join(&k));
                let _ = std::fs::remove_file(root.join(&f).join(format!(".ignore{k}")));
                d.get_mut(&f).unwrap().remove(&k);
            }
            "remove version".into()
        }
        3 => {
            let dirs: Vec<String> = d[&f].keys().filter(|k| !k.is_empty()).cloned().collect();
            if !dirs.is_empty() {
                let k = r.pick(&dirs).clone();
                let m = root.join(&f).join(format!(".ignore{k}"));
                let p = d.get_mut(&f).unwrap().get_mut(&k).unwrap();
                p.ignored = !p.ignored;
                if p.ignored { std::fs::write(&m, "").unwrap() } else { std::fs::remove_file(&m).unwrap() }
            }
            "toggle ignore".into()
        }
        _ => {
            let dirs: Vec<String> = d[&f].keys().cloned().collect();
            if !dirs.is_empty() {
                let k = r.pick(&dirs).clone();
                let p = d.get_mut(&f).unwrap().get_mut(&k).unwrap();
                // a file of the same size and an older date replaces it, or a new one of another size
                let restore = !p.broken && p.desc.len() > 3 && r.chance(1, 2);
                if restore {
                    p.desc = format!("{}{}", &p.desc[..p.desc.len() - 1], if p.desc.ends_with('y') { 'z' } else { 'y' });
                } else {
                    p.desc = format!("edited {} {}", r.below(1000), "x".repeat(r.range(1, 40)));
                    p.broken = !p.broken && r.chance(1, 6);
                }
                write_pkg(root, &f, &k, &p.clone());
                if restore {
                    let file = if k.is_empty() { root.join(&f) } else { root.join(&f).join(&k) }.join("package.py");
                    let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000 + r.below(1_000_000) as u64);
                    std::fs::File::options().write(true).open(file).and_then(|f| f.set_modified(t)).unwrap();
                }
            }
            "edit".into()
        }
    }
}

async fn check_fsrepo(m: &mut Mon, fs: &FileSystemRepository, d: &Disk, step: &str) {
    // only definitions at the two documented depths are listed; an unreadable one is skipped
    let names: Vec<String> = d.keys().filter(|f| !visible(d, f).is_empty()).cloned().collect();
    let got = fs.get_package_names().await.unwrap_or_default();
    m.check("FileSystemRepository lists exactly the families on disk", got == names, || json!({"after": step, "got": got, "want": names, "disk": format!("{d:?}")}));
    for f in &names {
        let vis = visible(d, f);
        let mut want: Vec<String> = vis.iter().filter_map(|(_, p)| p.version.clone()).collect();
        want.sort_by(|a, b| cmp_opt(b, a));
        let got: Vec<String> = fs.get_package_versions(f).await.unwrap_or_default().iter().map(|v| v.as_str().to_string()).collect();
        m.check("FileSystemRepository lists exactly the versions, newest first", got == want, || json!({"after": step, "family": f, "got": got, "want": want}));
        let got = fs.get_package(f, None).await.ok().flatten().map(|p| facts(&p).1);
        m.check("the latest package is the highest version", got == latest_of(&vis), || json!({"after": step, "family": f, "got": got, "want": latest_of(&vis)}));
        for v in VERS {
            let w = vis.iter().find(|(_, p)| p.version.as_deref().is_some_and(|w| cmp_opt(w, v).is_eq()));
            let ver = Version::parse(v).unwrap();
            let got = fs.get_package(f, Some(&ver)).await.ok().flatten().map(|p| facts(&p));
            let ex = fs.package_exists(f, Some(&ver)).await.unwrap_or(false);
            let want = w.map(|(_, p)| mfacts(f, p));
            m.check("a version is found exactly when it is on disk, with its definition", got == want && ex == want.is_some(), || json!({"after": step, "family": f, "version": v, "got": got, "exists": ex, "want": want}));
            if let Some((_, p)) = w
                && p.nvariants > 0
            {
                let k = fs.get_package_variants(f, Some(&ver)).await.unwrap_or_default().len();
                m.check("every variant is listed", k == p.nvariants, || json!({"family": f, "version": v, "got": k, "want": p.nvariants}));
            }
        }
    }
    let ex = fs.package_exists("nosuch", None).await.unwrap_or(true);
    m.check("a missing family does not exist", !ex, || json!("nosuch"));
    let st = fs.get_stats().await.unwrap();
    let want: usize = names.iter().map(|f| visible(d, f).len()).sum();
    m.check("statistics count the packages", st.version_count == want, || json!({"got": st.version_count, "want": want}));
    // pattern search
    for pat in ["*", "py*", "*o*", "a", "a?it", ".*", "m+"] {
        let c = PackageSearchCriteria { name_pattern: Some(pat.into()), include_prerelease: true, ..Default::default() };
        let got: Vec<(String, String)> = fs.find_packages(&c).await.unwrap_or_default().iter().map(|p| (facts(p).0, facts(p).1)).collect();
        let want: BTreeSet<(String, String)> = names.iter().filter(|f| glob(pat, f)).flat_map(|f| visible(d, f).into_iter().map(|(_, p)| (f.clone(), vkey(&p.version))).collect::<Vec<_>>()).collect();
        let gs: BTreeSet<(String, String)> = got.iter().cloned().collect();
        m.check("a name pattern selects exactly the matching packages", gs == want && got.len() == want.len(), || json!({"pattern": pat, "got": got, "want": want}));
        for (pre, exact) in [(false, None), (false, Some("1.0.rc1")), (true, Some("1.0.rc1")), (false, Some("1.10")), (true, Some("3A"))] {
            let c = PackageSearchCriteria { include_prerelease: pre, version_requirement: exact.map(|s| s.to_string()), ..c.clone() };
            let got: Vec<(String, String)> = fs.find_packages(&c).await.unwrap_or_default().iter().map(|p| (facts(p).0, facts(p).1)).collect();
            let want: BTreeSet<(String, String)> = want.iter().filter(|(_, v)| (v.is_empty() || exact.is_none_or(|x| x == v)) && (pre || !["rc", "beta", "RC"].iter().any(|x| v.contains(x)))).cloned().collect();
            let gs: BTreeSet<(String, String)> = got.iter().cloned().collect();
            m.check("a version and pre-release filter selects exactly the matching packages", gs == want && got.len() == want.len(), || json!({"pattern": pat, "prerelease": pre, "version": exact, "got": got, "want": want}));
        }
        let c = PackageSearchCriteria { limit: Some(2), ..c };
        let lim: Vec<(String, String)> = fs.find_packages(&c).await.unwrap_or_default().iter().map(|p| (facts(p).0, facts(p).1)).collect();
        m.check("a limit keeps a prefix of the full answer", lim.len() == got.len().min(2) && lim[..] == got[..lim.len()], || json!({"pattern": pat, "limited": lim, "full": got}));
    }
}
pub fn glob(p: &str, t: &str) -> bool {
    fn go(p: &[char], t: &[char]) -> bool {
        match p.first() {
            None => t.is_empty(),
            Some('*') => (0..=t.len()).any(|i| go(&p[1..], &t[i..])),
            Some('?') => !t.is_empty() && go(&p[1..], &t[1..]),
            Some(c) => t.first() == Some(c) && go(&p[1..], &t[1..]),
        }
    }
    go(&p.chars().collect::<Vec<_>>(), &t.chars().collect::<Vec<_>>())
}
fn check_liferepo(m: &mut Mon, root: &Path, d: &Disk, step: &str) {
    let repo = FilesystemPackageRepository::new(root);
    let fams: BTreeSet<String> = repo.iter_package_families().unwrap_or_default().iter().map(|f| f.name.clone()).collect();
    let mut want: BTreeSet<String> = d.keys().cloned().collect();
    if root.join("empty_family").is_dir() {
        want.insert("empty_family".into());
    }
    m.check("FilesystemPackageRepository lists exactly the family directories", fams == want, || json!({"after": step, "got": fams, "want": want}));
    for f in d.keys() {
        let fam = repo.get_package_family(f).ok().flatten();
        if !m.check("a listed family can be fetched", fam.is_some(), || json!({"family": f})) {
            continue;
        }
        let got: BTreeSet<String> = repo
            .iter_packages(&fam.unwrap())
            .unwrap_or_default()
            .iter()
            .map(|p| p.version().as_ref().map(|v| v.as_str().to_string()).unwrap_or_default())
            .collect();
        let want: BTreeSet<String> = d[f].iter().filter(|(k, p)| !k.is_empty() && !p.ignored).map(|(k, _)| k.clone()).collect();
        // directories holding no version of their own (a payload's bin/) belong to unversioned packages
        if !d[f].contains_key("") {
            m.check("FilesystemPackageRepository lists exactly the versions not ignored", got == want, || json!({"after": step, "family": f, "got": got, "want": want}));
        }
    }
    for n in ["", ".", "..", "../x", "nosuch", ".hidden", "_x"] {
        let g = repo.get_package_family(n).ok().flatten().is_some();
        m.check("a name that is not listed is not a family", !g, || json!({"name": n}));
    }
}
async fn check_scanner(m: &mut Mon, sc: &RepositoryScanner, root: &Path, d: &Disk, step: &str) {
    let res = match sc.scan_repository(root).await {
        Ok(r) => r,
        Err(e) => {
            m.check("a readable repository can be scanned", false, || json!({"after": step, "error": e.to_string()}));
            return;
        }
    };
    let path = |f: &str, k: &str| if k.is_empty() { root.join(f).join("package.py") } else { root.join(f).join(k).join("package.py") };
    let mut want: BTreeMap<PathBuf, Facts> = BTreeMap::new();
    let mut bad: BTreeSet<PathBuf> = BTreeSet::new();
    for (f, e) in d {
        for (k, p) in e {
            if p.broken {
                bad.insert(path(f, k));
            } else {
                want.insert(path(f, k), mfacts(f, p));
            }
        }
    }
    // definition files of other kinds and of unfinished copies are files like any other to the scanner
    let other = |p: &Path| p.is_file() && (p.extension().is_some_and(|e| e != "py") || p.parent().and_then(|d| d.file_name()).is_some_and(|n| n.to_string_lossy().starts_with('.')));
    let extra = res.packages.iter().filter(|p| other(&p.package_file)).count();
    let got: BTreeMap<PathBuf, Facts> = res.packages.iter().filter(|p| !other(&p.package_file)).map(|p| (p.package_file.clone(), facts(&p.package))).collect();
    let gbad: BTreeSet<PathBuf> = res.errors.iter().map(|e| e.path.clone()).filter(|p| !other(p)).collect();
    m.check("the scanner reports every definition file once, as it is now", got == want && res.packages.len() == want.len() + extra, || {
        let diff: Vec<_> = want.iter().filter(|(k, v)| got.get(*k) != Some(v)).map(|(k, v)| json!({"file": k, "want": v, "got": got.get(k)})).take(3).collect();
        json!({"after": step, "missing_or_different": diff, "extra": got.keys().filter(|k| !want.contains_key(*k)).collect::<Vec<_>>()})
    });
    m.check("the scanner reports every unreadable definition as an error", gbad == bad, || json!({"after": step, "got": gbad, "want": bad}));
}

pub fn d01(m: &mut Mon) {
    m.describe(
        "every answer of SimpleRepository, RepositoryManager, FileSystemRepository, FilesystemPackageRepository and RepositoryScanner, in any order of lookups and after any edit of the repository, is compared with an independent model of what is on disk",
        &["the repository is not edited while a lookup runs; a file edit changes size or mtime", "directory and package names agree"],
        2000,
    );
    let n = m.size(140, 12);
    let mut r = m.rng(1);
    for case in 0..n {
        if m.full() {
            break;
        }
        let root = util::fresh("d01");
        let with_broken = r.chance(1, 2);
        let mut d = gen_disk(&mut r, with_broken);
        write_disk(&root, &d, &mut r);
        m.seen(&d);
        crumb(format!("D01 case {case} {d:?}"));
        if case < 3 {
            m.sample(json!({"disk": format!("{d:?}")}));
        }
        let threads = if case % 3 == 0 { 4 } else { 1 };
        let rtm = rt(threads);
        let mut r2 = r.fork();
        rtm.block_on(async {
            // SimpleRepository: arbitrary lookup order on a fresh object
            let repo = SimpleRepository::new(&root, "r".into());
            let mut fams: Vec<String> = d.keys().cloned().collect();
            fams.push("nosuchfam".into());
            let mut hist = vec![];
            for _ in 0..10 {
                let f = r2.pick(&fams).clone();
                let (w, v) = (r2.below(4), r2.below(20));
                hist.push(format!("{f}:{w}"));
                match probe_simple(&repo, &d, &root, &f, w, v).await {
                    Ok(k) => {
                        m.count(k, 1);
                        m.check("a lookup reports what is on disk", true, || json!(null));
                    }
                    Err(e) => {
                        m.check("a lookup reports what is on disk", false, || json!({"lookups": hist, "mismatch": e}));
                    }
                }
            }
            // concurrent lookups on one shared repository
            if threads > 1 {
                let shared = Arc::new(SimpleRepository::new(&root, "c".into()));
                let da = Arc::new(d.clone());
                let mut js = vec![];
                for _ in 0..12 {
                    let (s, dd, rr, ff) = (shared.clone(), da.clone(), root.clone(), fams.clone());
                    let mut r3 = r2.fork();
                    js.push(tokio::spawn(async move {
                        let mut out = vec![];
                        for _ in 0..3 {
                            let f = r3.pick(&ff).clone();
                            out.push(probe_simple(&s, &dd, &rr, &f, r3.below(4), r3.below(20)).await);
                            if r3.chance(1, 3) {
                                let _ = s.scan().await;
                            }
                        }
                        out
                    }));
                }
                for j in js {
                    match j.await {
                        Ok(rs) => {
                            for x in rs {
                                m.count("concurrent lookups", 1);
                                let ok = x.is_ok();
                                m.check("concurrent lookups report what is on disk", ok, || x.err().unwrap());
                            }
                        }
                        Err(e) => {
                            m.check("concurrent lookups report what is on disk", false, || json!(e.to_string()));
                        }
                    }
                }
            }
            let mut fs = FileSystemRepository::new(root.clone(), None);
            let ok = fs.initialize().await.is_ok();
            m.check("a readable repository initializes", ok, || json!("initialize"));
            check_fsrepo(m, &fs, &d, "start").await;
            check_liferepo(m, &root, &d, "start");
            let cfg = ScannerConfig {
                enable_background_refresh: false,
                enable_cache_preload: false,
                max_concurrent_scans: *r2.pick(&[1, 2, 20]),
                directory_batch_size: *r2.pick(&[1, 3, 50]),
                memory_mapping_threshold: *r2.pick(&[1, 1 << 20]),
                enable_scan_cache: r2.chance(3, 4),
                ..Default::default()
            };
            let sc = RepositoryScanner::new(cfg);
            check_scanner(m, &sc, &root, &d, "start").await;
            check_scanner(m, &sc, &root, &d, "second scan").await;
            // edits, then refresh
            let steps = r2.range(1, 4);
            let mut done = vec![];
            for _ in 0..steps {
                done.push(mutate(&mut r2, &root, &mut d));
            }
            let step = done.join(", ");
            let _ = repo.scan().await;
            for f in d.keys().cloned().collect::<Vec<_>>() {
                for w in 0..4 {
                    if let Err(e) = probe_simple(&repo, &d, &root, &f, w, r2.below(20)).await {
                        m.check("after a rescan a lookup reports what is on disk", false, || json!({"edits": step, "mismatch": e}));
                    } else {
                        m.check("after a rescan a lookup reports what is on disk", true, || json!(null));
                    }
                }
            }
            let _ = fs.refresh().await;
            check_fsrepo(m, &fs, &d, &step).await;
            check_liferepo(m, &root, &d, &step);
            check_scanner(m, &sc, &root, &d, &step).await;
            // an unreadable repository: the rescan fails and what was known stays known
            if case % 4 == 0 {
                std::fs::set_permissions(&root, std::fs::Permissions::from_mode(0o000)).unwrap();
                let e1 = repo.scan().await.is_err();
                let e2 = fs.refresh().await.is_err();
                std::fs::set_permissions(&root, std::fs::Permissions::from_mode(0o755)).unwrap();
                m.check("an unreadable repository is an error", e1 && e2, || json!({"simple": e1, "filesystem": e2}));
                check_fsrepo(m, &fs, &d, "failed refresh").await;
                for f in d.keys() {
                    let r = probe_simple(&repo, &d, &root, f, 0, 0).await;
                    let ok = r.is_ok();
                    m.check("a failed rescan leaves earlier answers valid", ok, || r.err().unwrap());
                }
            }
            // two repositories behind one manager
            let root2 = util::fresh("d01b");
            let d2 = gen_disk(&mut r2, false);
            write_disk(&root2, &d2, &mut r2);
            let mut mgr = RepositoryManager::new();
            mgr.add_repository(Box::new(SimpleRepository::new(&root, "one".into())));
            mgr.add_repository(Box::new(SimpleRepository::new(&root2, "two".into())));
            let mut names: BTreeSet<String> = d.keys().filter(|f| !visible(&d, f).is_empty()).cloned().collect();
            names.extend(d2.keys().filter(|f| !visible(&d2, f).is_empty()).cloned());
            let got = mgr.list_packages().await.unwrap_or_default();
            m.check("a manager lists the union of its repositories", got == names.iter().cloned().collect::<Vec<_>>(), || json!({"got": got, "want": names}));
            for f in &names {
                if has_broken(&d, f) {
                    continue;
                }
                let ps = mgr.find_packages(f).await.unwrap_or_default();
                let got: Vec<String> = ps.iter().map(|p| facts(p).1).collect();
                let mut want: Vec<String> = visible(&d, f).iter().chain(visible(&d2, f).iter()).map(|(_, p)| vkey(&p.version)).collect();
                want.sort_by(|a, b| cmp_opt(b, a));
                m.check("a manager reports every version of every repository, newest first", got == want, || json!({"family": f, "got": got, "want": want}));
                for v in [VERS[r2.below(20)], VERS[r2.below(20)]] {
                    let find = |d: &Disk| visible(d, f).iter().find(|(_, p)| p.version.as_deref().is_some_and(|w| cmp_opt(w, v).is_eq())).map(|(_, p)| mfacts(f, p));
                    let want = find(&d).or_else(|| find(&d2));
                    let got = mgr.get_package(f, Some(v)).await.ok().flatten().map(|p| facts(&p));
                    m.check("a manager prefers its earlier repositories", got == want, || json!({"family": f, "version": v, "got": got, "want": want}));
                }
            }
            util::rm(&root2);
        });
        util::rm(&root);
    }
    together(m);
}

/// lookups that meet each other or a rescan see one state of the repository, the earlier or the later one
fn together(m: &mut Mon) {
    let mut r = m.rng(9);
    let rtm = rt(6);
    for case in 0..m.size(150, 12) {
        if m.full() || m.out_of_time() {
            return;
        }
        let root = util::fresh("d01t");
        let put = |v: &str, broken: bool| {
            let text = if broken { format!("name = 'fam'\nversion = '{v}'\nrequires = [\n") } else { format!("name = 'fam'\nversion = '{v}'\n") };
            util::write(root.join("fam").join(v).join("package.py"), &text);
        };
        for i in 0..r.range(1, 4) {
            put(&format!("{i}.0"), false);
        }
        for i in 0..r.below(4) {
            util::write(root.join(format!("other{i}/1.0/package.py")), &format!("name = 'other{i}'\nversion = '1.0'\n"));
        }
        // the state is the set of versions, or an error when one of them cannot be read
        let state = || -> String {
            let mut vs: Vec<String> = vec![];
            for e in std::fs::read_dir(root.join("fam")).unwrap().flatten() {
                let v = e.file_name().to_string_lossy().to_string();
                if std::fs::read_to_string(e.path().join("package.py")).is_ok_and(|t| t.contains("[\n")) {
                    return "error".into();
                }
                vs.push(v);
            }
            vs.sort();
            vs.join(" ")
        };
        let fresh = case % 3 == 0;
        if fresh && r.chance(1, 2) {
            put("9.9", true);
        }
        let before = state();
        let repo = Arc::new(SimpleRepository::new(&root, "t".into()));
        if !fresh {
            let _ = rtm.block_on(repo.scan());
            match r.below(4) {
                0 => put("9.9", true),
                1 => put("7.7", false),
                2 => {
                    put("9.9", true);
                    put("7.7", false);
                }
                _ => util::rm(&root.join("fam/0.0")),
            }
        }
        // after all versions are gone the family is unknown, and every lookup looks again
        let after = state();
        let gate = Arc::new(tokio::sync::Barrier::new(8));
        let answers: Vec<String> = rtm.block_on(async {
            let mut js = vec![];
            for k in 0..8usize {
                let (repo, gate) = (repo.clone(), gate.clone());
                let spin = r.below(200);
                js.push(tokio::spawn(async move {
                    gate.wait().await;
                    for _ in 0..spin {
                        std::hint::spin_loop();
                    }
                    let mut out = vec![];
                    for _ in 0..3 {
                        if k == 0 && !fresh {
                            let _ = repo.scan().await;
                        }
                        out.push(match repo.find_packages("fam").await {
                            Err(_) => "error".to_string(),
                            Ok(ps) => {
                                let mut vs: Vec<String> = ps.iter().filter_map(|p| p.version.as_ref().map(|v| v.as_str().to_string())).collect();
                                vs.sort();
                                vs.join(" ")
                            }
                        });
                    }
                    out
                }));
            }
            let mut all = vec![];
            for j in js {
                match j.await {
                    Ok(o) => all.extend(o),
                    Err(e) => all.push(format!("panic {e}")),
                }
            }
            all
        });
        m.count("lookups that met a scan", answers.len() as u64);
        m.seen(&("together", &before, &after, answers.iter().collect::<BTreeSet<_>>()));
        m.check(
            "a lookup during a scan sees one state of the repository",
            answers.iter().all(|a| *a == before || *a == after),
            || json!({"case": case, "fresh": fresh, "before": before, "after": after, "answers": answers.iter().collect::<BTreeSet<_>>()}),
        );
        util::rm(&root);
    }
}

// ---------------------------------------------------------------- D02
/// every path below `p`, with what it is
pub fn snapshot(p: &Path) -> BTreeMap<String, String> {
    fn go(base: &Path, p: &Path, out: &mut BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let path = e.path();
            let rel = path.strip_prefix(base).unwrap().to_string_lossy().to_string();
            let md = std::fs::symlink_metadata(&path).unwrap();
            if md.file_type().is_symlink() {
                out.insert(rel, format!("-> {}", std::fs::read_link(&path).unwrap().display()));
            } else if md.is_dir() {
                out.insert(rel, "dir".into());
                go(base, &path, out);
            } else {
                out.insert(rel, format!("file {}", String::from_utf8_lossy(&std::fs::read(&path).unwrap_or_default())));
            }
        }
    }
    let mut out = BTreeMap::new();
    go(p, p, &mut out);
    out
}
type Tree = BTreeMap<String, String>;
fn sub_remove(t: &mut Tree, p: &str) {
    t.retain(|k, _| k != p && !k.starts_with(&format!("{p}/")));
}
/// resolves to a directory (symlinks in these workloads always point at directories)
fn is_dir(t: &Tree, p: &str) -> bool {
    t.get(p).is_some_and(|v| v == "dir" || v.starts_with("->"))
}
fn valid(s: &str) -> bool {
    !s.is_empty() && s != "." && s != ".." && !s.contains('/')
}
fn diff(a: &Tree, b: &Tree) -> Value {
    json!({"missing": b.iter().filter(|(k, v)| a.get(*k) != Some(v)).take(6).collect::<Vec<_>>(), "unexpected": a.iter().filter(|(k, v)| b.get(*k) != Some(v)).take(6).collect::<Vec<_>>()})
}

pub fn d02(m: &mut Mon) {
    m.describe(
        "random histories of ignore / unignore / remove / remove family / clean-up calls (hostile names, read-only repositories, undeletable payloads, concurrent callers, killed processes) are replayed on a model of the directory tree; the whole tree around the repository is compared after every call",
        &["the scratch file system behaves like a POSIX file system"],
        1500,
    );
    let n = m.size(1200, 20);
    let mut r = m.rng(2);
    for case in 0..n {
        if m.full() {
            break;
        }
        let top = util::fresh("d02");
        let root = top.join("repo");
        util::write(top.join("outside/foo/1.0/keep.txt"), "precious");
        util::write(top.join("outside/keep.txt"), "precious");
        util::write(top.join("1.0/keep.txt"), "precious");
        std::fs::create_dir_all(&root).unwrap();
        let fams = ["foo", "bar", "baz_q", "_under"];
        for f in fams {
            let n = r.below(4);
            for _ in 0..n {
                let v = *r.pick(&["1.0", "2.0", "2.0.1", "10", "3", "1.0_", "_1.0", "1.0-a"]);
                if !v.starts_with('_') && !v.ends_with('_') {
                    util::write(root.join(f).join(v).join("package.py"), &format!("name = '{f}'\nversion = '{v}'\n"));
                }
                util::write(root.join(f).join(v).join("lib/a/b.txt"), "payload");
            }
        }
        if r.chance(1, 3) {
            let _ = std::fs::create_dir_all(root.join("bar"));
            let _ = std::os::unix::fs::symlink(top.join("outside/foo/1.0"), root.join("bar/7.7"));
        }
        if r.chance(1, 4) {
            let _ = std::os::unix::fs::symlink(top.join("outside"), root.join("linkfam"));
        }
        let ro = r.chance(1, 8);
        let mut repo = FilesystemPackageRepository::new(&root).with_read_only(ro);
        let mut t = snapshot(&top);
        m.seen(&t);
        let mut hist: Vec<String> = vec![];
        let steps = r.range(3, 12);
        for _ in 0..steps {
            let name = if r.chance(1, 6) { r.pick(&["", ".", "..", "../outside/foo", "../outside", "foo/1.0", "/tmp", "nosuch", "foo/../foo", "linkfam", "foo/..", "foo/1.0/..", "./foo/.", "nosuch/.."]).to_string() } else { r.pick(&fams).to_string() };
            let ver: Option<String> = match r.below(12) {
                0 => None,
                1 => Some(r.pick(&["", ".", "..", "../1.0", "../../outside", "1.0/lib", "/", "../bar", "1.0/..", "1.0/../..", "./.", "../foo/1.0/.."]).to_string()),
                2 => Some("9.9".into()),
                3 => Some("7.7".into()),
                _ => Some(r.pick(&["1.0", "2.0", "2.0.1", "10", "3", "1.0_", "_1.0", "1.0-a"]).to_string()),
            };
            let v = ver.as_deref();
            let op = r.below(9);
            let (a, b) = (r.chance(1, 2), r.chance(1, 2));
            let days = *r.pick(&[0, 0, 0, 1, 30, -1, i32::MAX]);
            let desc = match op {
                0..=2 => format!("ignore({name:?},{v:?},allow_missing={a})"),
                3 => format!("unignore({name:?},{v:?})"),
                4 | 5 => format!("remove({name:?},{v:?})"),
                6 => format!("remove_family({name:?},force={a})"),
                _ => format!("remove_ignored_since({days},dry={a})"),
            };
            hist.push(desc.clone());
            crumb(format!("D02 {hist:?}"));
            let fp = format!("repo/{name}");
            let (ok_names, vv) = (valid(&name) && v.is_some_and(valid), v.unwrap_or(""));
            // a family that is a link: operations reach through it, which is what a link is for
            if name == "linkfam" && op < 6 {
                hist.pop();
                continue;
            }
            let payload = format!("repo/{name}/{vv}");
            let marker = format!("repo/{name}/.ignore{vv}");
            let before = t.clone();
            let (want, got): (String, String) = match op {
                0..=2 => {
                    let w = if ro || !ok_names {
                        "Err".into()
                    } else if !a && !is_dir(&t, &payload) {
                        "-1".into()
                    } else {
                        t.insert(fp.clone(), "dir".into());
                        if t.contains_key(&marker) {
                            "0".into()
                        } else {
                            t.insert(marker.clone(), "file ".into());
                            "1".into()
                        }
                    };
                    (w, m.guard("no call panics", || json!(desc), || repo.ignore_package(&name, v, a).map(|x| x.to_string()).unwrap_or("Err".into())).unwrap_or("panic".into()))
                }
                3 => {
                    let w = if ro || !ok_names {
                        "Err".to_string()
                    } else {
                        let had = t.remove(&marker).is_some();
                        if !is_dir(&t, &payload) { "-1".into() } else if had { "1".into() } else { "0".into() }
                    };
                    (w, repo.unignore_package(&name, v).map(|x| x.to_string()).unwrap_or("Err".into()))
                }
                4 | 5 => {
                    let w = if ro || !ok_names {
                        "Err".to_string()
                    } else if !is_dir(&t, &payload) {
                        "false".into()
                    } else {
                        sub_remove(&mut t, &payload);
                        t.remove(&marker);
                        "true".into()
                    };
                    (w, repo.remove_package(&name, v).map(|x| x.to_string()).unwrap_or("Err".into()))
                }
                6 => {
                    let w = if ro || !valid(&name) {
                        "Err".to_string()
                    } else if !is_dir(&t, &fp) {
                        "false".into()
                    } else {
                        let pre = format!("{fp}/");
                        let has = name == "linkfam" || t.keys().any(|k| k.strip_prefix(&pre).is_some_and(|x| !x.contains('/') && !x.starts_with('.')) && is_dir(&t, k));
                        if !a && has {
                            "Err".into()
                        } else {
                            sub_remove(&mut t, &fp);
                            "true".into()
                        }
                    };
                    (w, repo.remove_package_family(&name, a).map(|x| x.to_string()).unwrap_or("Err".into()))
                }
                _ => {
                    let w = if ro || days < 0 {
                        "Err".to_string()
                    } else if days > 0 {
                        "0".into()
                    } else {
                        let mut k = 0;
                        for mk in t.keys().cloned().collect::<Vec<_>>() {
                            let parts: Vec<&str> = mk.split('/').collect();
                            if parts.len() == 3
                                && parts[0] == "repo"
                                && let Some(ver) = parts[2].strip_prefix(".ignore")
                            {
                                let pl = format!("repo/{}/{ver}", parts[1]);
                                if is_dir(&t, &pl) {
                                    k += 1;
                                    if !a {
                                        sub_remove(&mut t, &pl);
                                        t.remove(&mk);
                                    }
                                }
                            }
                        }
                        k.to_string()
                    };
                    (w, repo.remove_ignored_since(days, a, b).map(|x| x.to_string()).unwrap_or("Err".into()))
                }
            };
            m.count(desc.split('(').next().unwrap(), 1);
            if want == "Err" {
                m.count("refused", 1);
            }
            m.check("a call returns what it did", want == got, || json!({"history": hist, "read_only": ro, "want": want, "got": got, "tree": before}));
            let s = snapshot(&top);
            if !m.check("a call changes exactly what it says and nothing else", s == t, || json!({"history": hist, "read_only": ro, "diff": diff(&s, &t)})) {
                break;
            }
            // the markers decide visibility, in both repository views
            if r.chance(1, 4) {
                let rtm = rt(1);
                for f in fams {
                    let Some(fam) = repo.get_package_family(f).ok().flatten() else { continue };
                    let got: BTreeSet<String> = repo.iter_packages(&fam).unwrap_or_default().iter().filter_map(|p| p.version().as_ref().map(|v| v.as_str().to_string())).collect();
                    let pre = format!("repo/{f}/");
                    let want: BTreeSet<String> = t
                        .keys()
                        .filter_map(|k| k.strip_prefix(&pre).filter(|x| !x.contains('/') && !x.starts_with(['.', '_']) && !x.ends_with('_') && is_dir(&t, k)).map(|x| x.to_string()))
                        .filter(|v| !t.contains_key(&format!("repo/{f}/.ignore{v}")))
                        .collect();
                    m.check("an ignored package is hidden and an unignored one is listed", got == want, || json!({"history": hist, "family": f, "got": got, "want": want}));
                    let simple = SimpleRepository::new(&root, "s".into());
                    let got: BTreeSet<String> =
                        rtm.block_on(simple.find_packages(f)).unwrap_or_default().iter().filter_map(|p| p.version.as_ref().map(|v| v.as_str().to_string())).collect();
                    let want: BTreeSet<String> = want.into_iter().filter(|v| v != "7.7").collect();
                    m.check("resolves do not see an ignored package", got == want, || json!({"history": hist, "family": f, "got": got, "want": want}));
                }
            }
        }
        // fault: a payload that cannot be deleted stays hidden, with its marker
        if !ro && case % 2 == 0 {
            let other = root.join("other/1.0");
            util::write(other.join("package.py"), "name = 'other'\nversion = '1.0'\n");
            let pk = root.join("stuck/1.0");
            util::write(pk.join("package.py"), "name = 'stuck'\nversion = '1.0'\n");
            util::write(pk.join("sub/file"), "x");
            std::fs::set_permissions(pk.join("sub"), std::fs::Permissions::from_mode(0o555)).unwrap();
            let via_cleanup = r.chance(1, 2);
            let failed = if via_cleanup {
                let _ = repo.ignore_package("stuck", Some("1.0"), false);
                repo.remove_ignored_since(0, false, false).is_err()
            } else {
                repo.remove_package("stuck", Some("1.0")).is_err()
            };
            let marker = root.join("stuck/.ignore1.0").is_file();
            let fam = repo.get_package_family("stuck").ok().flatten();
            let listed = fam.map(|f| repo.iter_packages(&f).map(|v| v.len()).unwrap_or(0)).unwrap_or(0);
            m.count("undeletable payload", 1);
            m.check("a package that could not be removed completely stays hidden", failed && marker && listed == 0 && other.join("package.py").is_file(), || {
                json!({"reported_error": failed, "marker_kept": marker, "listed": listed, "clean_up": via_cleanup})
            });
            std::fs::set_permissions(pk.join("sub"), std::fs::Permissions::from_mode(0o755)).unwrap();
            // the retry completes
            let again = repo.remove_package("stuck", Some("1.0"));
            m.check("a retried removal completes", matches!(again, Ok(true)) && !pk.exists() && !root.join("stuck/.ignore1.0").exists(), || json!({"result": format!("{again:?}")}));
        }
        // concurrent callers
        if !ro && case % 3 == 0 {
            util::write(root.join("race/1.0/package.py"), "name = 'race'\nversion = '1.0'\n");
            let bar = Arc::new(std::sync::Barrier::new(6));
            let hs: Vec<_> = (0..6)
                .map(|_| {
                    let (mut c, b) = (repo.clone(), bar.clone());
                    std::thread::spawn(move || {
                        b.wait();
                        c.ignore_package("race", Some("1.0"), false).map(|x| x.to_string()).unwrap_or("Err".into())
                    })
                })
                .collect();
            let rs: Vec<String> = hs.into_iter().map(|h| h.join().unwrap_or("panic".into())).collect();
            let ones = rs.iter().filter(|x| *x == "1").count();
            m.count("concurrent ignore rounds", 1);
            m.check("exactly one of several concurrent ignores takes effect", ones == 1 && rs.iter().all(|x| x == "0" || x == "1"), || json!(rs));
            let hs: Vec<_> = (0..4)
                .map(|_| {
                    let (mut c, b) = (repo.clone(), bar.clone());
                    let _ = b;
                    std::thread::spawn(move || c.unignore_package("race", Some("1.0")).map(|x| x.to_string()).unwrap_or("Err".into()))
                })
                .collect();
            let rs: Vec<String> = hs.into_iter().map(|h| h.join().unwrap_or("panic".into())).collect();
            m.check("exactly one of several concurrent unignores takes effect", rs.iter().filter(|x| *x == "1").count() == 1, || json!(rs));
        }
        util::rm(&top);
    }
    // killed while removing: never visible with only part of its payload
    let kills = m.size(24, 12);
    let exe = std::env::current_exe().unwrap();
    for i in 0..kills {
        if m.full() {
            break;
        }
        let root = util::fresh("d02k");
        let files = 400;
        for k in 0..files {
            util::write(root.join(format!("big/1.0/d{}/f{k}", k % 20)), "x");
        }
        util::write(root.join("big/1.0/package.py"), "name = 'big'\nversion = '1.0'\n");
        let mut c = std::process::Command::new(&exe).arg("child:rmpkg").arg(&root).arg("big").arg("1.0").spawn().unwrap();
        std::thread::sleep(std::time::Duration::from_micros(r.range(500, 12_000) as u64));
        let _ = c.kill();
        let _ = c.wait();
        let repo = FilesystemPackageRepository::new(&root);
        let listed = repo.get_package_family("big").ok().flatten().map(|f| repo.iter_packages(&f).map(|v| v.len()).unwrap_or(0)).unwrap_or(0);
        let left = snapshot(&root.join("big/1.0")).values().filter(|v| v.starts_with("file")).count();
        let state = if left == files + 1 { "killed before" } else if left == 0 { "killed after" } else { "killed half-way" };
        m.count(state, 1);
        m.seen(&(state, left / 40));
        m.check("a removal that is cut short never leaves a visible partial package", listed == 0 || left == files + 1, || json!({"kill": i, "files_left": left, "listed": listed}));
        util::rm(&root);
    }
}

// ---------------------------------------------------------------- Q01
fn refers(req: &str, target: &str) -> bool {
    if req.starts_with('!') {
        return false;
    }
    let base: String = req.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    base == target
}
pub fn q01(m: &mut Mon) {
    use rez_next_repository::{get_plugins, get_reverse_dependency_tree};
    use rez_next_search::{FilterMode, PackageSearcher, SearchFilter, SearchOptions, SearchScope};
    m.describe(
        "search results (library and command line), plugin lists and reverse-dependency layers over generated repositories are compared with answers computed from the generator's own model",
        &["names and patterns are ASCII"],
        600,
    );
    let n = m.size(150, 10);
    let mut r = m.rng(3);
    for case in 0..n {
        if m.full() {
            break;
        }
        let roots = [util::fresh("q01"), util::fresh("q01")];
        let nroots = r.range(1, 2);
        let mut disks = vec![];
        for root in &roots[..nroots] {
            let broken = r.chance(1, 3);
            let d = gen_disk(&mut r, broken);
            write_disk(root, &d, &mut r);
            m.seen(&d);
            disks.push(d);
        }
        let paths: Vec<PathBuf> = roots[..nroots].to_vec();
        crumb(format!("Q01 case {case} {disks:?}"));
        // ---- searcher
        for _ in 0..4 {
            let pats = ["", "py", "PY", "maya", "o", "a", "^py.*n$", "[0-9]", "zzz", "Maya", "(", "_"];
            let pat = *r.pick(&pats);
            let mode = match r.below(4) {
                0 => FilterMode::Exact,
                1 => FilterMode::Prefix,
                2 => FilterMode::Contains,
                _ => FilterMode::Regex,
            };
            let (lp, nm) = (pat.to_lowercase(), |s: &str| s.to_lowercase());
            let hit = |name: &str| -> bool {
                if pat.is_empty() {
                    return true;
                }
                match mode {
                    FilterMode::Exact => nm(name) == lp,
                    FilterMode::Prefix => nm(name).starts_with(&lp),
                    FilterMode::Contains => nm(name).contains(&lp),
                    FilterMode::Regex => match pat {
                        "^py.*n$" => name.len() >= 3 && name.starts_with("py") && name.ends_with('n'),
                        "[0-9]" => name.chars().any(|c| c.is_ascii_digit()),
                        "(" => false,
                        p => name.contains(p),
                    },
                }
            };
            let range = if r.chance(1, 3) { Some(gen_range(&mut r)) } else { None };
            let scope = match r.below(3) {
                0 => SearchScope::Families,
                1 => SearchScope::Packages,
                _ => SearchScope::LatestOnly,
            };
            let mut filter = SearchFilter::new(pat).with_mode(mode.clone());
            if let Some((t, _)) = &range {
                if rez_next_version::VersionRange::parse(t).is_err() {
                    continue;
                }
                filter = filter.with_version_range(t.clone());
            }
            let opts = SearchOptions { paths: Some(paths.clone()), scope: scope.clone(), filter, include_hidden: false };
            let mut want: BTreeSet<(String, String, Vec<String>)> = BTreeSet::new();
            let mut judged = true;
            for (i, d) in disks.iter().enumerate() {
                for f in d.keys() {
                    if has_broken(d, f) || !hit(f) {
                        continue;
                    }
                    let mut vs: Vec<String> = vec![];
                    for (_, p) in visible(d, f) {
                        match (&p.version, &range) {
                            (Some(v), Some((_, mr))) => {
                                if mr.has(&model(v)) {
                                    vs.push(v.clone());
                                }
                            }
                            (Some(v), None) => vs.push(v.clone()),
                            (None, Some(_)) => judged = false,
                            (None, None) => vs.push(String::new()),
                        }
                    }
                    if vs.is_empty() {
                        continue;
                    }
                    vs.sort_by(|a, b| cmp_opt(a, b));
                    let mut vs: Vec<String> = vs.into_iter().map(|v| if v.is_empty() { "unknown".into() } else { v }).collect();
                    if scope == SearchScope::LatestOnly {
                        vs = vec![vs.pop().unwrap()];
                    }
                    want.insert((f.clone(), paths[i].to_string_lossy().to_string(), vs));
                }
            }
            if !judged {
                m.inconclusive("unversioned package under a version range");
                continue;
            }
            let input = json!({"pattern": pat, "mode": format!("{mode:?}"), "scope": format!("{scope:?}"), "range": range.as_ref().map(|x| &x.0), "disks": format!("{disks:?}")});
            let res = PackageSearcher::new(opts.clone()).search();
            let got: BTreeSet<(String, String, Vec<String>)> = res.results.iter().map(|x| (x.name.clone(), x.repo_path.clone(), x.versions.clone())).collect();
            m.count("searches", 1);
            m.count("search results", got.len() as u64);
            m.check("a search returns exactly the matching families and versions", got == want && res.results.len() == want.len(), || json!({"input": input, "got": got, "want": want}));
            m.check("the latest version of a result is its highest", res.results.iter().all(|x| x.latest == x.versions.last().cloned()), || json!({"input": input}));
            m.check("results come in name order", res.results.windows(2).all(|w| w[0].name <= w[1].name), || json!({"input": input}));
            let mut o2 = opts.clone();
            o2.filter.limit = r.range(1, 3);
            let k = o2.filter.limit;
            let a: Vec<_> = PackageSearcher::new(o2.clone()).search().results.iter().map(|x| (x.name.clone(), x.repo_path.clone(), x.versions.clone())).collect();
            let b: Vec<_> = PackageSearcher::new(o2).search().results.iter().map(|x| (x.name.clone(), x.repo_path.clone(), x.versions.clone())).collect();
            m.check("a limited search returns that many of the matches, the same ones every time", a == b && a.len() == k.min(want.len()) && a.iter().all(|x| want.contains(x)), || json!({"input": input, "limit": k, "first": a, "second": b}));
        }
        // ---- reverse dependencies and plugins (latest version of each family, first path wins nothing: any path)
        let sp: Vec<String> = paths.iter().map(|p| p.to_string_lossy().to_string()).collect();
        let mut fams: BTreeSet<String> = BTreeSet::new();
        for d in &disks {
            fams.extend(d.keys().cloned());
        }
        let latest = |d: &Disk, f: &str| -> Option<DPkg> {
            let mut v: Vec<&DPkg> = d.get(f)?.iter().filter(|(_, p)| !p.ignored && !p.broken).map(|(_, p)| p).collect();
            v.sort_by(|a, b| cmp_opt(&vkey(&a.version), &vkey(&b.version)));
            v.pop().cloned()
        };
        for b in [false, true] {
            let dependents = |t: &str| -> BTreeSet<String> {
                fams.iter()
                    .filter(|f| disks.iter().any(|d| latest(d, f).is_some_and(|p| p.requires.iter().any(|q| refers(q, t)) || (b && p.build_requires.iter().any(|q| refers(q, t))))))
                    .cloned()
                    .collect()
            };
            for t in fams.iter().take(4) {
                let depth = match r.below(5) {
                    0 => None,
                    k => Some(k - 1),
                };
                let (layers, graph) = get_reverse_dependency_tree(t, depth, Some(sp.clone()), b, false);
                let got: Vec<BTreeSet<String>> = layers.iter().map(|l| l.iter().cloned().collect()).collect();
                let mut want: Vec<BTreeSet<String>> = vec![[t.clone()].into()];
                let mut seen: BTreeSet<String> = want[0].clone();
                while depth.is_none_or(|k| want.len() <= k) {
                    let next: BTreeSet<String> = want.last().unwrap().iter().flat_map(|x| dependents(x)).filter(|x| !seen.contains(x)).collect();
                    if next.is_empty() {
                        break;
                    }
                    seen.extend(next.iter().cloned());
                    want.push(next);
                }
                m.count("reverse trees", 1);
                m.count("reverse layers", got.len() as u64);
                m.check("reverse-dependency layers are the breadth-first layers of the dependency relation", got == want, || {
                    json!({"target": t, "depth": depth, "build": b, "got": got, "want": want, "disks": format!("{disks:?}")})
                });
                m.check("every reported edge is a real dependency", graph.iter().all(|(a, bs)| bs.iter().all(|x| dependents(a).contains(x))), || json!({"target": t, "graph": graph}));
                let in_graph: BTreeSet<String> = graph.values().flatten().cloned().collect();
                m.check("every dependent found is connected in the graph", want[1..].iter().flatten().all(|x| in_graph.contains(x)), || json!({"target": t, "graph": graph, "want": want}));
            }
        }
        for t in fams.iter().take(3) {
            let got = get_plugins(t, Some(sp.clone()));
            let want: Vec<String> = fams.iter().filter(|f| disks.iter().any(|d| latest(d, f).is_some_and(|p| p.plugin_for.contains(t)))).cloned().collect();
            m.check("the plugins of a package are the families whose latest version declares it", got == want, || json!({"target": t, "got": got, "want": want}));
        }
        for p in &roots {
            util::rm(p);
        }
    }
}
