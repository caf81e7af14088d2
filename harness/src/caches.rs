//! C01 payload cache, C02 two-level cache, C03 definition cache
use crate::files::{tree, Tree};
use crate::mon::{crumb, Mon, Rng};
use crate::util;
use rez_next_package::package_cache::{CacheConfig, CacheStatus, CachedVariantInfo, PackageCache, VariantHandle};
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// variant indices of package col-1 whose cache keys share their stored prefix
const COLLIDING: [usize; 32] = [
    30827, 78839, 81268, 108363, 129105, 140018, 172367, 250415, 302489, 347873, 352178, 440411, 448951, 477569, 519998, 537110, 548040, 548719, 554787, 555329, 563796, 566070, 657242, 669767, 700168, 756568,
    774099, 775129, 775804, 803542, 811811, 832192,
];

fn open() -> CacheConfig {
    CacheConfig { min_free_space_bytes: 0, ..Default::default() }
}
fn handle(r: &mut Rng) -> VariantHandle {
    if r.chance(1, 3) {
        return VariantHandle::new("col".into(), Some("1".into()), Some(*r.pick(&COLLIDING)));
    }
    let mut h = VariantHandle::new(
        r.pick(&["foo", "Foo", "bar", "foo, version=1"]).to_string(),
        r.pick(&[None, Some("1"), Some("1.0"), Some("1.0-A"), Some("1.0-a"), Some("_NO_VERSION")]).map(|s| s.to_string()),
        *r.pick(&[None, Some(0), Some(1)]),
    );
    match r.below(5) {
        0 => {
            h.attributes.insert("x".into(), "1, y=2".into());
        }
        1 => {
            h.attributes.insert("x".into(), "1".into());
            h.attributes.insert("y".into(), "2".into());
        }
        _ => {}
    }
    h
}
fn key(h: &VariantHandle) -> String {
    let a: BTreeMap<_, _> = h.attributes.iter().collect();
    format!("{:?} {:?} {:?} {a:?}", h.name, h.version, h.index)
}
fn payload(r: &mut Rng, d: &Path, tag: &str) {
    util::write(d.join("package.py"), &format!("# {tag} {}", r.next()));
    for i in 0..r.below(4) {
        let f = d.join(*r.pick(&["lib", "bin/x", "a b", ".h"])).join(format!("f{i}.json"));
        util::write(&f, &"y".repeat(*r.pick(&[0, 10, 5000])));
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(*r.pick(&[0o644, 0o755, 0o600]))).unwrap();
    }
    if r.chance(1, 4) {
        let _ = std::os::unix::fs::symlink(*r.pick(&["package.py", ".", "..", "nowhere"]), d.join("link"));
    }
    if r.chance(1, 4) {
        std::fs::create_dir_all(d.join("empty")).unwrap();
    }
}
fn size_of(t: &Tree) -> u64 {
    crate::files::bytes_in(t)
}

pub fn c01(m: &mut Mon) {
    m.describe(
        "random histories of caching, looking up, removing and cleaning variant payloads (colliding keys, hostile names, size limits, expired and future access times, damaged metadata, vanished payloads, unreadable sources) replayed on a model; concurrent threads and processes, and killed processes; every payload reported as cached is compared with its source file by file",
        &["the scratch file system behaves like a POSIX file system", "the clock does not jump by more than an hour during a run"],
        1500,
    );
    histories(m);
    races(m);
    kills(m);
}

/// pretend the entry was last used that many seconds ago
fn set_age(e: &mut (Tree, PathBuf, i64), age: i64) {
    let j = e.1.with_extension("json");
    if let Ok(mut i) = serde_json::from_str::<CachedVariantInfo>(&std::fs::read_to_string(&j).unwrap_or_default()) {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        i.last_accessed = Some((now - age) as u64);
        std::fs::write(&j, serde_json::to_string(&i).unwrap()).unwrap();
        e.2 = age;
    }
}

fn histories(m: &mut Mon) {
    let mut r = m.rng(1);
    for _ in 0..m.size(120, 20) {
        if m.full() {
            return;
        }
        let top = util::fresh("c01");
        let root = top.join("cache");
        std::fs::create_dir_all(&root).unwrap();
        util::write(top.join("outside/1/keep"), "precious");
        let mut cfg = open();
        let limit = r.chance(1, 5).then(|| r.range(20, 30_000) as u64);
        cfg.max_size_bytes = limit;
        let max_age = r.chance(1, 2).then_some(10_000u64);
        cfg.max_age_secs = max_age;
        let c = PackageCache::with_config(&root, cfg).unwrap();
        let mut model: BTreeMap<String, (Tree, PathBuf, i64)> = BTreeMap::new();
        let mut handles: BTreeMap<String, VariantHandle> = BTreeMap::new();
        let mut hist: Vec<String> = vec![];
        let outside = || {
            let mut t = tree(&top);
            t.retain(|k, _| !k.starts_with("cache") && !k.starts_with("src"));
            t
        };
        let out0 = outside();
        let many = r.chance(1, 6);
        for step in 0..if many { 50 } else { r.range(5, 30) } {
            let h = if many && step < 32 {
                VariantHandle::new("col".into(), Some("1".into()), Some(COLLIDING[step]))
            } else if r.chance(1, 12) {
                VariantHandle::new(r.pick(&["..", "../outside", "", "a/b", "/tmp", ".", "foo", "foo", "foo", "bar"]).to_string(), r.pick(&[None, Some("1"), Some(".."), Some("../1"), Some("1/../../outside/1"), Some("a/b"), Some("../../outside/1"), Some("/nonexistent")]).map(|s| s.to_string()), None)
            } else {
                handle(&mut r)
            };
            let sane = !h.name.is_empty() && !h.name.contains('/') && !h.name.contains("..") && h.name != "." && h.version.as_deref().is_none_or(|v| !v.contains("..") && !v.contains('/'));
            let k = key(&h);
            handles.insert(k.clone(), h.clone());
            let op = if many && step < 32 { 0 } else { r.below(12) };
            let what = ["add", "add", "add", "add", "get", "get", "remove", "remove", "damage", "age", "clean", "list"][op];
            hist.push(format!("{what} {k}"));
            crumb(format!("C01 {hist:?}"));
            m.count(what, 1);
            match op {
                0..=3 => {
                    let src = top.join(format!("src/{step}"));
                    payload(&mut r, &src, &k);
                    let bad = r.chance(1, 10);
                    if bad {
                        util::write(src.join("zz/secret"), "s");
                        std::fs::set_permissions(src.join("zz/secret"), std::fs::Permissions::from_mode(0o000)).unwrap();
                    }
                    let force = r.chance(1, 4);
                    let st = tree(&src);
                    let res = m.guard("no call panics", || json!(hist), || c.add_variant(&h, &src, force));
                    let Some(res) = res else { break };
                    let had = model.get(&k).cloned();
                    match &res {
                        Err(_) => {
                            m.count("add refused", 1);
                            m.check("adding fails only when the payload cannot be stored", bad && had.is_none() || !sane, || json!({"history": hist, "error": format!("{res:?}")}));
                        }
                        Ok((CacheStatus::Found, p)) => {
                            m.check("an add reports an existing entry only when there is one", had.as_ref().is_some_and(|x| x.1 == *p), || json!({"history": hist}));
                        }
                        Ok((CacheStatus::Created, p)) => {
                            let ok = sane && had.is_none() && !bad && p.starts_with(&root) && !model.values().any(|x| x.1 == *p);
                            m.check("a created entry is new and inside the cache", ok, || json!({"history": hist, "path": p, "sane": sane, "had": had.is_some(), "bad": bad}));
                            model.insert(k.clone(), (st.clone(), p.clone(), 0));
                            let used: u64 = model.values().map(|x| size_of(&x.0)).sum();
                            m.check("the cache stays within its size limit", force || limit.is_none_or(|l| used <= l), || json!({"history": hist, "limit": limit, "used": used}));
                        }
                        Ok((CacheStatus::Skipped, _)) => {
                            let used: u64 = model.values().map(|x| size_of(&x.0)).sum();
                            m.count("add skipped", 1);
                            m.check("a payload is skipped only when it would exceed the size limit", !force && had.is_none() && limit.is_some_and(|l| used + size_of(&st) > l || bad), || json!({"history": hist, "limit": limit, "used": used}));
                        }
                        Ok((s, _)) => {
                            m.violate("an add ends as created, found or skipped", "other status", json!({"history": hist, "status": format!("{s:?}")}));
                        }
                    }
                    if bad {
                        let _ = std::fs::remove_file(src.join("zz/secret"));
                    }
                }
                4 | 5 => {
                    let _ = c.get_cached_root(&h);
                    if let Some(e) = model.get_mut(&k) {
                        e.2 = 0;
                    }
                }
                6 | 7 => {
                    let (s, p) = c.remove_variant(&h);
                    let had = model.remove(&k);
                    m.check(
                        "a removal reports whether there was an entry",
                        match &had {
                            Some(x) => s == CacheStatus::Removed && p.as_ref() == Some(&x.1),
                            None => s == CacheStatus::NotFound && p.is_none(),
                        },
                        || json!({"history": hist, "status": format!("{s:?}"), "had": had.is_some()}),
                    );
                }
                8 => {
                    // metadata or payload damaged behind the cache's back: at worst a miss
                    let Some((_, p, _)) = model.remove(&k) else { continue };
                    let j = p.with_extension("json");
                    match r.below(4) {
                        0 => std::fs::write(&j, "{ not json").unwrap(),
                        1 => {
                            let s = std::fs::read_to_string(&j).unwrap_or_default();
                            std::fs::write(&j, &s[..s.len() / 2]).unwrap();
                        }
                        2 => {
                            let _ = std::fs::remove_file(&j);
                        }
                        _ => util::rm(&p),
                    }
                }
                9 => {
                    // an access time in the past or the future
                    let Some(e) = model.get_mut(&k) else { continue };
                    set_age(e, *r.pick(&[5_000i64, 9_000, 30_000, 1_000_000, -100_000]));
                }
                10 => {
                    let before = model.len();
                    for e in model.values_mut() {
                        if r.chance(1, 3) {
                            set_age(e, *r.pick(&[5_000i64, 9_000, 30_000, 1_000_000, -100_000]));
                        }
                    }
                    if m.guard("no call panics", || json!(hist), || c.clean(None)).is_none() {
                        break;
                    }
                    if let Some(a) = max_age {
                        model.retain(|_, x| x.2 < a as i64);
                    }
                    m.count("expired", (before - model.len()) as u64);
                    let left = std::fs::read_dir(root.join(".sys/to_delete")).map(|d| d.count()).unwrap_or(0);
                    m.check("cleaning deletes what was removed earlier", left == 0 || before != model.len(), || json!({"history": hist, "left": left}));
                }
                _ => {
                    let got: BTreeMap<String, PathBuf> = c.list_cached().into_iter().filter(|x| x.2 == CacheStatus::Found).map(|(h, p, _)| (key(&h), p)).collect();
                    let want: BTreeMap<String, PathBuf> = model.iter().map(|(k, v)| (k.clone(), v.1.clone())).collect();
                    m.check("the list of cached variants is exactly what is cached", got == want, || json!({"history": hist, "got": got, "want": want}));
                }
            }
            // every lookup, whatever happened before (looked at without touching access times of the model)
            if r.chance(1, 3) || step % 10 == 9 {
                for (k, h) in &handles {
                    let (s, p) = c.get_cached_root(h);
                    if let Some(e) = model.get_mut(k) {
                        e.2 = 0;
                    }
                    let ok = match model.get(k) {
                        None => s == CacheStatus::NotFound && p.is_none(),
                        Some((t, q, _)) => s == CacheStatus::Found && p.as_ref() == Some(q) && tree(q) == *t,
                    };
                    if !m.check("a cached payload is a complete copy of its own variant, and nothing else is reported", ok, || {
                        json!({"history": hist, "handle": k, "status": format!("{s:?}"), "path": p, "cached": model.contains_key(k)})
                    }) {
                        break;
                    }
                }
                m.seen(&model.keys().cloned().collect::<Vec<_>>());
            }
        }
        let o = outside();
        m.check("nothing outside the cache changes", o == out0, || json!({"history": hist}));
        util::rm(&top);
    }
}

/// several threads and processes cache, look up and remove the same variants
fn races(m: &mut Mon) {
    let mut r = m.rng(2);
    let exe = std::env::current_exe().unwrap();
    for round in 0..m.size(25, 15) {
        if m.full() {
            return;
        }
        let top = util::fresh("c01r");
        let root = top.join("cache");
        std::fs::create_dir_all(&root).unwrap();
        let nh = r.range(1, 3);
        let hs: Vec<VariantHandle> = (0..nh).map(|i| VariantHandle::new("col".into(), Some("1".into()), Some(COLLIDING[i]))).collect();
        let mut trees = vec![];
        for (i, _) in hs.iter().enumerate() {
            let s = top.join(format!("src{i}"));
            for k in 0..30 {
                util::write(s.join(format!("d{}/f{k}", k % 4)), &format!("{i} {}", "z".repeat(20_000)));
            }
            util::write(s.join("package.py"), &format!("# {i}"));
            util::write(s.join("bin/tool"), &format!("{i}"));
            util::write(s.join("zz.txt"), &format!("{i}"));
            trees.push(tree(&s));
        }
        let removing = r.chance(1, 3);
        let stop = Arc::new(AtomicBool::new(false));
        let bad: Arc<Mutex<Vec<String>>> = Default::default();
        let found = Arc::new(AtomicU64::new(0));
        let looks = Arc::new(AtomicU64::new(0));
        std::thread::scope(|sc| {
            for _ in 0..3 {
                let (root, hs, trees, stop, bad, found, looks) = (&root, &hs, &trees, stop.clone(), bad.clone(), found.clone(), looks.clone());
                sc.spawn(move || {
                    let c = PackageCache::with_config(root, open()).unwrap();
                    while !stop.load(Ordering::Relaxed) {
                        for (h, t) in hs.iter().zip(trees) {
                            looks.fetch_add(1, Ordering::Relaxed);
                            let (s, p) = c.get_cached_root(h);
                            if s == CacheStatus::Found {
                                found.fetch_add(1, Ordering::Relaxed);
                                let got = tree(&p.unwrap());
                                if got != *t && !removing {
                                    bad.lock().unwrap().push(format!("variant {:?} reported as cached with {} of {} files", h.index, got.len(), t.len()));
                                }
                            }
                        }
                    }
                });
            }
            let mut kids: Vec<_> = (0..2)
                .map(|k| {
                    let i = k % nh;
                    std::process::Command::new(&exe).arg("child:addvar").arg(&root).arg(COLLIDING[i].to_string()).arg(top.join(format!("src{i}"))).spawn().unwrap()
                })
                .collect();
            let adders: Vec<_> = (0..4)
                .map(|k| {
                    let (root, h, src) = (&root, hs[k % nh].clone(), top.join(format!("src{}", k % nh)));
                    sc.spawn(move || {
                        let c = PackageCache::with_config(root, open()).unwrap();
                        let a = c.add_variant(&h, &src, true).map(|x| format!("{:?}", x.0)).unwrap_or_else(|e| format!("Err {e}"));
                        if removing && k == 0 {
                            c.remove_variant(&h);
                            let _ = c.add_variant(&h, &src, true);
                        }
                        a
                    })
                })
                .collect();
            let rs: Vec<String> = adders.into_iter().map(|h| h.join().unwrap_or("panic".into())).collect();
            for k in &mut kids {
                let _ = k.wait();
            }
            stop.store(true, Ordering::Relaxed);
            m.check("concurrent adds of a variant all end well", rs.iter().all(|s| ["Created", "Found", "Copying"].contains(&s.as_str())), || json!(rs));
            m.seen(&rs);
        });
        m.count("concurrent rounds", 1);
        m.count("concurrent lookups", looks.load(Ordering::Relaxed));
        m.count("concurrent hits", found.load(Ordering::Relaxed));
        let bad = bad.lock().unwrap().clone();
        m.check("a payload reported as cached is complete, also while it is being cached", bad.is_empty(), || json!({"round": round, "seen": &bad[..bad.len().min(4)]}));
        let c = PackageCache::with_config(&root, open()).unwrap();
        let n = c.list_cached().len();
        m.check("concurrent adds leave one entry per variant", n == nh, || json!({"entries": c.list_cached().iter().map(|x| format!("{:?} {:?}", x.1, x.2)).collect::<Vec<_>>(), "variants": nh}));
        for (h, t) in hs.iter().zip(&trees) {
            let (s, p) = c.get_cached_root(h);
            m.check("after concurrent adds every variant is cached completely", s == CacheStatus::Found && tree(p.as_ref().unwrap()) == *t, || json!({"status": format!("{s:?}")}));
            c.remove_variant(h);
            let (s, _) = c.get_cached_root(h);
            m.check("a removed variant is gone", s == CacheStatus::NotFound, || json!({"status": format!("{s:?}")}));
        }
        util::rm(&top);
    }
}

fn kills(m: &mut Mon) {
    let mut r = m.rng(3);
    let exe = std::env::current_exe().unwrap();
    let mut full_run = 0u64;
    for i in 0..m.size(40, 12) {
        if m.full() {
            return;
        }
        let top = util::fresh("c01k");
        let (root, src) = (top.join("cache"), top.join("src"));
        std::fs::create_dir_all(&root).unwrap();
        for k in 0..200 {
            util::write(src.join(format!("d{}/f{k}", k % 9)), &"x".repeat(k));
        }
        util::write(src.join("package.py"), "# definition");
        util::write(src.join("zz.txt"), "z");
        let t = tree(&src);
        let h = VariantHandle::new("col".into(), Some("1".into()), Some(COLLIDING[0]));
        let mut c = std::process::Command::new(&exe).arg("child:addvar").arg(&root).arg(COLLIDING[0].to_string()).arg(&src).spawn().unwrap();
        if full_run == 0 {
            let t0 = std::time::Instant::now();
            let _ = c.wait();
            full_run = t0.elapsed().as_micros() as u64;
        } else {
            std::thread::sleep(std::time::Duration::from_micros(full_run * r.range(0, 110) as u64 / 100));
        }
        let _ = c.kill();
        let _ = c.wait();
        let pc = PackageCache::with_config(&root, open()).unwrap();
        let (s, p) = pc.get_cached_root(&h);
        let full = p.as_ref().is_some_and(|p| tree(p) == t);
        m.count(&format!("killed: {s:?}, {}", if full { "complete" } else { "incomplete" }), 1);
        m.seen(&(format!("{s:?}"), full));
        m.check("a copy that was cut short is not reported as cached", s != CacheStatus::Found || full, || json!({"kill": i, "status": format!("{s:?}")}));
        // another variant with a colliding key is unaffected
        let h2 = VariantHandle::new("col".into(), Some("1".into()), Some(COLLIDING[1]));
        let a = pc.add_variant(&h2, &src, true);
        let ok = matches!(&a, Ok((CacheStatus::Created, p)) if tree(p) == t);
        m.check("a copy that was cut short does not affect other variants", ok, || json!({"result": format!("{a:?}")}));
        util::rm(&top);
    }
}

pub fn child_addvar(args: &[String]) -> i32 {
    let c = PackageCache::with_config(&args[0], open()).unwrap();
    let h = VariantHandle::new("col".into(), Some("1".into()), Some(args[1].parse().unwrap()));
    i32::from(c.add_variant(&h, Path::new(&args[2]), true).is_err())
}

// ---------------------------------------------------------------- C02
use rez_next_cache::{IntelligentCacheManager, UnifiedCache, UnifiedCacheConfig};
type Two = IntelligentCacheManager<u32, (u32, u64)>;

fn two(l1: usize, l2: usize, thr: u64, ttl: u64) -> Two {
    let mut c = UnifiedCacheConfig::default();
    c.l1_config.max_entries = l1;
    c.l1_config.promotion_threshold = thr;
    c.l1_config.default_ttl = ttl;
    c.l2_config.max_entries = l2;
    IntelligentCacheManager::new(c)
}

pub fn c02(m: &mut Mon) {
    m.describe(
        "random histories of put / get / contains / remove / clear on the two-level cache with small capacities, replayed on a map; expiry in real time; and concurrent tasks (one writer per key writing increasing values, several readers) whose every read is checked against the interval of writes it overlaps",
        &["a cache may forget an entry when its capacity is exceeded, never otherwise"],
        20_000,
    );
    let mut r = m.rng(1);
    let rtm = crate::repo::rt(1);
    for case in 0..m.size(400, 20) {
        if m.full() {
            return;
        }
        // tight caches move entries between the levels all the time
        let tight = case % 3 == 1;
        let (l1, l2, thr) = if tight { (r.range(1, 4), r.range(1, 5), r.range(1, 6) as u64) } else { (r.range(1, 12), r.range(1, 12), r.range(1, 4) as u64) };
        let c = two(l1, l2, thr, 0);
        let keys = if case % 3 == 0 { l1 as u32 } else { r.range(1, 30) as u32 };
        let roomy = (keys as usize) < l1;
        let mut model: BTreeMap<u32, u64> = BTreeMap::new();
        let mut hist: Vec<String> = vec![];
        let (mut gets, mut hits) = (0u64, 0u64);
        let mut val = 0u64;
        rtm.block_on(async {
            let (mut k, mut op) = (0u32, 0);
            for _ in 0..r.range(20, if tight { 400 } else { 150 }) {
                // the same key again, to be worth keeping
                if !(tight && r.chance(1, 2)) {
                    k = r.below(keys as usize) as u32;
                    let most = if r.chance(1, 4) { 20 } else { 19 };
                    op = r.below(most);
                } else if op < 7 {
                    op = 7;
                }
                crumb(format!("C02 {l1} {l2} {thr} {hist:?} then {op} on {k}"));
                match op {
                    0..=6 => {
                        val += 1;
                        hist.push(format!("put {k}={val}"));
                        let ok = c.put(k, (k, val)).await.is_ok();
                        model.insert(k, val);
                        m.check("a put succeeds", ok, || json!(hist));
                    }
                    7..=14 => {
                        let has = c.contains_key(&k).await;
                        let g = c.get(&k).await;
                        gets += 1;
                        hits += u64::from(g.is_some());
                        hist.push(format!("get {k} -> {:?}", g.map(|x| x.1)));
                        m.check("a lookup returns the last value put for its key, or nothing", g.is_none_or(|x| x.0 == k && model.get(&k) == Some(&x.1)), || json!({"history": hist, "l1": l1, "l2": l2, "threshold": thr, "want": model.get(&k)}));
                        m.check("presence and lookup agree", has == g.is_some(), || json!({"history": hist, "contains": has}));
                        m.check("nothing is forgotten while everything fits", !roomy || g.is_some() == model.contains_key(&k), || json!({"history": hist, "l1": l1, "keys": keys}));
                    }
                    15 | 16 => {
                        let has = c.contains_key(&k).await;
                        let d = c.remove(&k).await;
                        hist.push(format!("remove {k} -> {d}"));
                        model.remove(&k);
                        let still = c.contains_key(&k).await;
                        m.check("a removal reports what was there and removes it", d == has && !still, || json!({"history": hist, "had": has, "still": still}));
                    }
                    17 => {
                        let n = c.size().await;
                        let mut present = 0;
                        for k in 0..keys {
                            present += usize::from(c.contains_key(&k).await);
                        }
                        m.check("the size is the number of entries and within capacity", n == present && n <= c.capacity().await && (n == 0) == c.is_empty().await, || json!({"history": hist, "size": n, "present": present}));
                    }
                    18 => {
                        let s = c.get_stats().await;
                        let ok = s.l1_stats.hits + s.l2_stats.hits == hits && s.l1_stats.misses == gets - hits && s.l1_stats.entries <= l1 && s.l2_stats.entries <= l2;
                        m.check("every lookup is counted once as hit or miss, and no level exceeds its capacity", ok, || {
                            json!({"history": hist, "hits": hits, "misses": gets - hits, "l1": format!("{:?}", s.l1_stats), "l2": format!("{:?}", s.l2_stats)})
                        });
                        m.count("promotions", s.overall_stats.promotions);
                        m.count("demotions", s.overall_stats.demotions);
                    }
                    _ => {
                        if r.chance(1, 3) {
                            let _ = c.clear().await;
                            model.clear();
                            (gets, hits) = (0, 0);
                            hist.push("clear".into());
                            m.check("clearing empties the cache", c.is_empty().await, || json!(hist));
                        }
                    }
                }
                let s = c.get_stats().await;
                if !m.check("no level ever exceeds its capacity", s.l1_stats.entries <= l1 && s.l2_stats.entries <= l2, || json!({"history": hist, "l1": l1, "l2": l2, "l1_entries": s.l1_stats.entries, "l2_entries": s.l2_stats.entries})) {
                    break;
                }
            }
        });
        m.seen(&(l1, l2, thr, hist.len(), model.len()));
        m.count("histories", 1);
    }
    expiry(m);
    clearing(m);
    // concurrent tasks
    for round in 0..m.size(24, 20) {
        if m.full() {
            return;
        }
        let workers = [1, 2, 8][round % 3];
        let rtm = crate::repo::rt(workers);
        let keys = r.range(2, 10) as u32;
        let roomy = r.chance(1, 3);
        let (l1, l2, thr) = if roomy { (keys as usize + 1, 4, 2) } else { (r.range(1, 3), r.range(1, 6), r.range(1, 3) as u64) };
        let c = Arc::new(two(l1, l2, thr, 0));
        // per key: number of the last operation begun / ended; an operation is a put of its own number or a removal
        let begun: Arc<Vec<AtomicU64>> = Arc::new((0..keys).map(|_| AtomicU64::new(0)).collect());
        let ended: Arc<Vec<AtomicU64>> = Arc::new((0..keys).map(|_| AtomicU64::new(0)).collect());
        let is_remove = move |k: u32, n: u64| !roomy && (n * 7 + k as u64) % 5 == 0;
        let stop = Arc::new(AtomicBool::new(false));
        let bad: Arc<Mutex<Vec<String>>> = Default::default();
        let (reads, hits) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
        let ops = 400u64;
        crumb(format!("C02 concurrent round {round} workers {workers} keys {keys} l1 {l1} l2 {l2} thr {thr}"));
        let done = rtm.block_on(async {
            let mut hs = vec![];
            for k in 0..keys {
                let (c, b, e) = (c.clone(), begun.clone(), ended.clone());
                hs.push(tokio::spawn(async move {
                    for n in 1..=ops {
                        b[k as usize].store(n, Ordering::SeqCst);
                        if is_remove(k, n) {
                            c.remove(&k).await;
                        } else {
                            let _ = c.put(k, (k, n)).await;
                        }
                        e[k as usize].store(n, Ordering::SeqCst);
                        if n % 3 == 0 {
                            tokio::task::yield_now().await;
                        }
                    }
                }));
            }
            let mut rs = vec![];
            for i in 0..6u64 {
                let (c, b, e, stop, bad, reads, hits) = (c.clone(), begun.clone(), ended.clone(), stop.clone(), bad.clone(), reads.clone(), hits.clone());
                let mut q = Rng::new(round as u64 * 100 + i);
                rs.push(tokio::spawn(async move {
                    while !stop.load(Ordering::Relaxed) {
                        let k = q.below(keys as usize) as u32;
                        let lo = e[k as usize].load(Ordering::SeqCst);
                        let g = c.get(&k).await;
                        let hi = b[k as usize].load(Ordering::SeqCst);
                        reads.fetch_add(1, Ordering::Relaxed);
                        let what = match g {
                            Some((kk, n)) => {
                                hits.fetch_add(1, Ordering::Relaxed);
                                if kk != k {
                                    Some(format!("key {k} returned the value of key {kk}"))
                                } else if n < lo || n > hi || is_remove(k, n) || (is_remove(k, lo) && n == lo) {
                                    Some(format!("key {k} returned value {n}, but operations {lo}..={hi} bound it (operation {lo} {})", if is_remove(k, lo) { "removed it" } else { "put it" }))
                                } else {
                                    None
                                }
                            }
                            None if roomy && lo > 0 => Some(format!("key {k} forgotten after put {lo} although everything fits")),
                            None => None,
                        };
                        if let Some(w) = what {
                            bad.lock().unwrap().push(w);
                        }
                        tokio::task::yield_now().await;
                    }
                }));
            }
            let w = tokio::time::timeout(std::time::Duration::from_secs(60), async {
                for h in hs {
                    let _ = h.await;
                }
            })
            .await
            .is_ok();
            stop.store(true, Ordering::Relaxed);
            if w {
                for h in rs {
                    let _ = h.await;
                }
            }
            w
        });
        if !m.check("concurrent calls all return", done, || json!({"workers": workers, "keys": keys})) {
            std::mem::forget(rtm);
            return;
        }
        m.count("concurrent rounds", 1);
        m.count("concurrent reads", reads.load(Ordering::Relaxed));
        m.count("concurrent hits", hits.load(Ordering::Relaxed));
        m.seen(&(workers, keys, l1, l2, reads.load(Ordering::Relaxed) / 64));
        let b = bad.lock().unwrap().clone();
        m.check("a concurrent lookup never returns an older, removed or foreign value", b.is_empty(), || json!({"round": round, "workers": workers, "l1": l1, "l2": l2, "threshold": thr, "seen": &b[..b.len().min(5)], "count": b.len()}));
        // at rest
        let (bad2, size_ok) = rtm.block_on(async {
            let mut bad = vec![];
            let mut present = 0;
            for k in 0..keys {
                present += usize::from(c.contains_key(&k).await);
            }
            let n = c.size().await;
            for k in 0..keys {
                let g = c.get(&k).await;
                let last = ops;
                let want_none = is_remove(k, last);
                if g.is_some_and(|x| x.1 != last || want_none) || (roomy && g.is_none()) {
                    bad.push(format!("key {k}: {g:?} after {last}"));
                }
            }
            let s = c.get_stats().await;
            (bad, n == present && s.l1_stats.entries <= l1 && s.l2_stats.entries <= l2)
        });
        m.check("after concurrent use the cache holds the last values only", bad2.is_empty(), || json!({"round": round, "seen": bad2}));
        m.check("after concurrent use each entry is held once and capacities are kept", size_ok, || json!({"round": round, "l1": l1, "l2": l2}));
    }
}

/// after a clear or a removal that met lookups nothing of what was put before is left
fn clearing(m: &mut Mon) {
    let mut r = m.rng(7);
    for round in 0..m.size(150, 10) {
        if m.full() {
            return;
        }
        let workers = [2, 4, 8][round % 3];
        let rtm = crate::repo::rt(workers);
        let keys = r.range(4, 24) as u32;
        let (l1, l2, thr) = (r.range(2, 12), r.range(6, 24), r.range(1, 3) as u64);
        let whole = r.chance(2, 3);
        let c = Arc::new(two(l1, l2, thr, 0));
        crumb(format!("C02 clearing round {round} workers {workers} keys {keys} l1 {l1} l2 {l2} thr {thr}"));
        let res = rtm.block_on(async {
            let mut left = vec![];
            let mut held = 0;
            for turn in 0..6u64 {
                for k in 0..keys {
                    let _ = c.put(k, (k, turn)).await;
                    // used, so that it moves down rather than out
                    for _ in 0..2 {
                        let _ = c.get(&k).await;
                    }
                }
                held += c.size().await;
                let stop = Arc::new(AtomicBool::new(false));
                let hs: Vec<_> = (0..4u64)
                    .map(|i| {
                        let (c, stop) = (c.clone(), stop.clone());
                        let mut q = Rng::new(round as u64 * 97 + turn * 7 + i);
                        tokio::spawn(async move {
                            while !stop.load(Ordering::Relaxed) {
                                let _ = c.get(&(q.below(keys as usize) as u32)).await;
                                tokio::task::yield_now().await;
                            }
                        })
                    })
                    .collect();
                for _ in 0..r.below(4) {
                    tokio::task::yield_now().await;
                }
                if whole {
                    c.clear().await;
                } else {
                    for k in 0..keys {
                        c.remove(&k).await;
                    }
                }
                // what the lookups still see now
                for k in 0..keys {
                    if let Some(v) = c.get(&k).await {
                        left.push(format!("turn {turn}: key {k} is {v:?}"));
                    }
                }
                stop.store(true, Ordering::Relaxed);
                if tokio::time::timeout(std::time::Duration::from_secs(30), async {
                    for h in hs {
                        let _ = h.await;
                    }
                })
                .await
                .is_err()
                {
                    return None;
                }
                if c.size().await != 0 {
                    left.push(format!("turn {turn}: {} entries", c.size().await));
                }
            }
            Some((left, held))
        });
        let Some((left, held)) = res else {
            m.violate("concurrent calls all return", "clearing", json!({"round": round, "clearing": whole}));
            std::mem::forget(rtm);
            return;
        };
        m.count("entries held when cleared", held as u64);
        m.seen(&("clearing", workers, keys, l1, l2, whole));
        m.check("nothing put before a clear or removal is served after it", left.is_empty(), || json!({"round": round, "clear": whole, "workers": workers, "l1": l1, "l2": l2, "threshold": thr, "left": &left[..left.len().min(6)]}));
    }
}

/// an entry is served until its lifetime ends and not afterwards, however often it is used and wherever it moves
fn expiry(m: &mut Mon) {
    use std::time::{Duration, Instant};
    let mut r = m.rng(8);
    let rtm = crate::repo::rt(1);
    struct One {
        c: Two,
        ttl: u64,
        roomy: bool,
        keys: u32,
        lazy: bool,
        put: BTreeMap<u32, (Instant, Instant, u64)>,
        hist: Vec<String>,
    }
    let t0 = Instant::now();
    let mut all: Vec<One> = (0..m.size(120, 4))
        .map(|_| {
            let (l1, l2, thr) = (r.range(1, 5), r.range(1, 8), r.range(1, 4) as u64);
            let keys = r.range(1, 8) as u32;
            let ttl = *r.pick(&[1u64, 2, 2, 3]);
            One { c: two(l1, l2, thr, ttl), ttl, roomy: (keys as usize) < l1, keys, lazy: r.chance(1, 3), put: BTreeMap::new(), hist: vec![format!("l1 {l1} l2 {l2} threshold {thr} ttl {ttl}")] }
        })
        .collect();
    let (mut expired, mut served) = (0u64, 0u64);
    for step in 0..18 {
        for o in &mut all {
            for _ in 0..if step == 0 { 14 } else { 3 } {
                let k = r.below(o.keys as usize) as u32;
                let at = t0.elapsed().as_millis();
                if r.chance(if step == 0 { 5 } else { 1 }, 10) {
                    let v = r.next() >> 1;
                    let a = Instant::now();
                    let _ = rtm.block_on(o.c.put(k, (k, v)));
                    o.put.insert(k, (a, Instant::now(), v));
                    o.hist.push(format!("{at} ms: put {k}"));
                    continue;
                }
                // an entry that is left alone until it has expired, and one that is used all the time
                if o.lazy && k % 2 == 0 && o.put.get(&k).is_some_and(|p| p.1.elapsed() < Duration::from_secs(o.ttl)) && step > 0 {
                    continue;
                }
                let a = Instant::now();
                let (has, got) = rtm.block_on(async {
                    let has = r.chance(1, 2).then_some(o.c.contains_key(&k).await);
                    (has, o.c.get(&k).await)
                });
                let b = Instant::now();
                o.hist.push(format!("{at} ms: get {k} -> {}", got.is_some()));
                let Some((p0, p1, v)) = o.put.get(&k) else {
                    m.check("a key that was never put has no value", got.is_none() && has != Some(true), || json!({"history": o.hist}));
                    continue;
                };
                let ttl = Duration::from_secs(o.ttl);
                let dead = a.saturating_duration_since(*p1) > ttl + Duration::from_millis(20);
                let alive = b.saturating_duration_since(*p0) + Duration::from_millis(20) < ttl;
                expired += u64::from(dead);
                served += u64::from(got.is_some());
                m.check("an entry past its lifetime is not served", !dead || (got.is_none() && has != Some(true)), || json!({"history": o.hist, "contains": has}));
                m.check("an entry is served until its lifetime ends", !(alive && o.roomy) || got.is_some(), || json!({"history": o.hist}));
                m.check("a lookup returns the last value put for its key, or nothing", got.is_none_or(|g| g == (k, *v)), || json!({"history": o.hist}));
            }
        }
        m.seen(&("expiry", step, expired, served));
        std::thread::sleep(Duration::from_millis(290));
    }
    m.count("lookups of expired entries", expired);
    m.count("lookups of live entries", served);
}

// ---------------------------------------------------------------- C03
use rez_next_package_cache::PackageCache as DefCache;
use rez_next_repository::{CacheConfig as RepoCacheConfig, RepositoryCache};
use std::time::{Duration, SystemTime};

fn touch(p: &Path, content: &str, secs: u64) {
    util::write(p, content);
    let f = std::fs::File::options().write(true).open(p).unwrap();
    f.set_modified(SystemTime::UNIX_EPOCH + Duration::from_secs(secs)).unwrap();
}

/// an entry is served until its lifetime ends and not afterwards, whoever set the lifetime
fn lifetimes(m: &mut Mon) {
    use rez_next_package_cache::CachedPackage;
    let mut r = m.rng(9);
    let rtm = crate::repo::rt(1);
    let top = util::fresh("c03t");
    struct One {
        kind: usize,
        c: DefCache,
        rc: RepositoryCache,
        dir: PathBuf,
        src: PathBuf,
        life: Option<u64>,
        what: String,
    }
    let mut all = vec![];
    for i in 0..m.size(90, 4) {
        let kind = i % 3;
        let dir = top.join(format!("c{i}"));
        let src = top.join(format!("s{i}/package.py"));
        touch(&src, "x", 1_600_000_000 + i as u64);
        // whole seconds are what the repository cache counts
        let default = *r.pick(&[None, Some(0u64), Some(1), Some(1), Some(3600)]);
        let own = *r.pick(&[None, None, Some(0u64), Some(1), Some(3600)]);
        let c = if kind == 0 { DefCache::new_in_memory() } else { DefCache::new_file_based(&dir).unwrap() };
        let c = match default {
            Some(t) => c.with_default_ttl(Duration::from_secs(t)),
            None => c,
        };
        let rc = RepositoryCache::new(RepoCacheConfig { cache_dir: dir.clone(), default_ttl: default.unwrap_or(3600), ..Default::default() });
        let _ = rtm.block_on(rc.initialize());
        let (life, what) = if kind == 2 {
            let _ = rtm.block_on(rc.put("k", rez_next_package::Package::new("n".into()), src.clone()));
            (Some(default.unwrap_or(3600)), format!("repository cache, lifetime {default:?}"))
        } else if r.chance(1, 2) {
            let p = CachedPackage { name: "n".into(), version: "1".into(), path: src.clone(), mtime: std::fs::metadata(&src).unwrap().modified().unwrap(), data: "d".into(), cached_at: SystemTime::now(), ttl: own.map(Duration::from_secs) };
            let _ = c.put(&src, p);
            (own.or(default), format!("definition cache {kind}, lifetime {own:?}, default {default:?}, put"))
        } else {
            let _ = c.put_package(&src, "n", "1", "d");
            (default, format!("definition cache {kind}, default lifetime {default:?}, put_package"))
        };
        all.push(One { kind, c, rc, dir, src, life, what });
    }
    for late in [false, true] {
        if late {
            std::thread::sleep(Duration::from_millis(2300));
        }
        for o in &mut all {
            let reopen = o.kind == 1 && r.chance(1, 2);
            if reopen {
                // the lifetime was stored with the entry: a cache with another default keeps it
                o.c = DefCache::new_file_based(&o.dir).unwrap();
            }
            let got = if o.kind == 2 { rtm.block_on(o.rc.get("k")).map(|x| x.is_some()).map_err(|e| e.to_string()) } else { o.c.get(&o.src).map(|x| x.is_some()).map_err(|e| e.to_string()) };
            let lasting = o.life.is_none_or(|t| t > 10);
            let ok = match &got {
                Err(_) => false,
                Ok(g) if lasting => *g,
                Ok(g) => !(late && *g),
            };
            m.count(if late { "lookups after the short lifetimes" } else { "lookups within the lifetimes" }, 1);
            m.check("an entry is served until its lifetime ends and no longer", ok, || json!({"cache": o.what, "late": late, "reopened": reopen, "got": got}));
        }
    }
    util::rm(&top);
}

pub fn c03(m: &mut Mon) {
    m.describe(
        "random histories of editing, restoring and deleting package files and of put / get / remove / clear / reopen on the definition caches (memory, file, repository), with damaged cache files, zero and long lifetimes, hostile keys and concurrent users; every hit is compared with the package file as it is now",
        &["edits change the modification time of a file by at least a second"],
        6000,
    );
    let mut r = m.rng(1);
    let rtm = crate::repo::rt(2);
    for case in 0..m.size(250, 20) {
        if m.full() {
            return;
        }
        let top = util::fresh("c03");
        util::write(top.join("keep.json"), "precious");
        let kind = case % 3; // memory, file, repository
        let dir = top.join("cache");
        let ttl = *r.pick(&[None, None, Some(0u64), Some(3600), Some(u64::MAX / 4)]);
        let mk = || {
            let c = if kind == 0 { DefCache::new_in_memory() } else { DefCache::new_file_based(&dir).unwrap() };
            match ttl {
                Some(t) => c.with_default_ttl(Duration::from_secs(t)),
                None => c,
            }
        };
        let mk_repo = || {
            RepositoryCache::new(RepoCacheConfig { cache_dir: dir.clone(), default_ttl: ttl.map(|t| if t == 0 { 0 } else if t > 4000 { u64::MAX } else { t }).unwrap_or(3600), cleanup_interval: *[0u64, 300, u64::MAX].get(case % 3).unwrap(), ..Default::default() })
        };
        let mut c = mk();
        let rc = mk_repo();
        let _ = rtm.block_on(rc.initialize());
        // files that differ in one part of their path only
        let files: Vec<PathBuf> = match r.below(3) {
            0 => (0..4).map(|i| top.join(format!("pk/f{i}/package.py"))).collect(),
            1 => (0..4).map(|i| top.join(format!("{}/repo/pkgs/tool/1.0/package.py", ["a", "b", "A", "a b"][i]))).collect(),
            _ => ["repo/tool/1.0/package.py", "repo/tool/1.0/package.yaml", "repo/tool/1.0/a/package.py", "repo/tool/1/0/package.py"].iter().map(|x| top.join(x)).collect(),
        };
        let keys: [&str; 4] = *r.pick(&[["f0", "f1", "f2", "f3"], ["tool", "tool ", " tool", "Tool"], ["a-1", "a1", "a_1", "a.1"], ["x", "x.json", "x\n", "x-1"]]);
        let mut clock = 1_600_000_000u64;
        let mut now: Vec<Option<(String, u64)>> = vec![None; 4];
        let mut stored: Vec<Option<(String, u64)>> = vec![None; 4];
        let mut hist: Vec<String> = vec![];
        for _ in 0..r.range(10, 40) {
            let i = r.below(4);
            let op = r.below(14);
            match op {
                0..=2 => {
                    clock += 1 + r.below(50) as u64;
                    // edited, or restored from an older copy
                    let t = if r.chance(1, 4) { clock - 900_000_000 } else { clock };
                    let body = format!("v{clock}");
                    touch(&files[i], &body, t);
                    now[i] = Some((body, t));
                    hist.push(format!("edit {i} at {t}"));
                }
                3 => {
                    if now[i].take().is_some() {
                        let _ = std::fs::remove_file(&files[i]);
                        hist.push(format!("delete {i}"));
                        if r.chance(1, 2) {
                            // the folder of the package goes too, unless it holds another file
                            let _ = std::fs::remove_dir(files[i].parent().unwrap());
                        }
                    }
                }
                4..=7 => {
                    let Some((body, t)) = now[i].clone() else { continue };
                    let ok = if kind == 2 {
                        let mut p = rez_next_package::Package::new(format!("f{i}"));
                        p.description = Some(body.clone());
                        rtm.block_on(rc.put(keys[i], p, files[i].clone())).is_ok()
                    } else {
                        c.put_package(&files[i], &format!("f{i}"), "1.0", &body).is_ok()
                    };
                    stored[i] = Some((body, t));
                    hist.push(format!("put {i}"));
                    m.check("a put succeeds", ok, || json!(hist));
                }
                8 => {
                    if kind == 2 {
                        let _ = rtm.block_on(rc.remove(keys[i]));
                    } else {
                        let _ = c.remove(&files[i]);
                    }
                    stored[i] = None;
                    hist.push(format!("remove {i}"));
                }
                9 => {
                    if r.chance(1, 4) {
                        let ok = if kind == 2 { rtm.block_on(rc.clear()).is_ok() } else { c.clear().is_ok() };
                        stored = vec![None; 4];
                        hist.push("clear".into());
                        m.check("clearing succeeds", ok, || json!(hist));
                    } else if kind == 2 {
                        let ok = rtm.block_on(rc.cleanup()).is_ok();
                        hist.push("cleanup".into());
                        m.check("clean-up succeeds", ok, || json!(hist));
                        for (s, n) in stored.iter_mut().zip(&now) {
                            if s.is_some() && *s != *n {
                                *s = None;
                            }
                        }
                    }
                }
                10 if kind == 1 => {
                    c = mk();
                    hist.push("reopen".into());
                }
                11 if kind == 1 => {
                    // cache files damaged while no cache is open
                    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
                        let s = std::fs::read(e.path()).unwrap_or_default();
                        match r.below(4) {
                            0 => std::fs::write(e.path(), "").unwrap(),
                            1 => std::fs::write(e.path(), &s[..s.len() / 2]).unwrap(),
                            2 => std::fs::write(e.path(), [0xff, 0xfe, 0x00]).unwrap(),
                            _ => std::fs::write(e.path(), "{}").unwrap(),
                        }
                    }
                    c = mk();
                    stored = vec![None; 4];
                    hist.push("damage + reopen".into());
                }
                12 if kind == 2 => {
                    let k = *r.pick(&["../keep", "a/b", "", "/tmp/zz", "../../x"]);
                    let p = rez_next_package::Package::new("x".into());
                    if now[i].is_some() {
                        let _ = rtm.block_on(rc.put(k, p, files[i].clone()));
                    }
                    let _ = rtm.block_on(rc.remove(k));
                    hist.push(format!("hostile key {k:?}"));
                    let keep = std::fs::read_to_string(top.join("keep.json")).unwrap_or_default();
                    m.check("a key never reaches a file outside the cache", keep == "precious", || json!({"history": hist, "keep": keep}));
                }
                _ => {}
            }
            crumb(format!("C03 kind {kind} {hist:?}"));
            for j in 0..4 {
                // not every step looks everything up
                if r.chance(2, 3) {
                    continue;
                }
                hist.push(format!("get {j}"));
                let got: Result<Option<String>, String> = if kind == 2 {
                    rtm.block_on(rc.get(keys[j])).map(|o| o.map(|p| format!("{} {}", p.name, p.description.unwrap_or_default()))).map_err(|e| e.to_string())
                } else {
                    c.get(&files[j]).map(|o| o.map(|p| format!("{} {}", p.name, p.data))).map_err(|e| e.to_string())
                };
                let fresh = stored[j].is_some() && stored[j] == now[j] && ttl != Some(0);
                // with a zero lifetime the entry may still be served within its own second
                let maybe = ttl == Some(0);
                let want = now[j].as_ref().map(|x| format!("f{j} {}", x.0));
                let ok = match &got {
                    Err(_) => false,
                    Ok(Some(g)) => (fresh || maybe && stored[j] == now[j]) && Some(g) == want.as_ref(),
                    Ok(None) => !fresh,
                };
                m.count(if matches!(got, Ok(Some(_))) { "hits" } else { "misses" }, 1);
                if !m.check("a definition cache returns the definition the file holds now, or nothing", ok, || json!({"cache": (["memory", "file", "repository"][kind]), "history": hist, "file": j, "got": got, "want": want, "cached": fresh})) {
                    break;
                }
                if matches!(got, Ok(None)) {
                    stored[j] = None;
                }
            }
        }
        m.seen(&(kind, hist.len(), hist.iter().filter(|h| h.starts_with("edit")).count()));
        util::rm(&top);
    }
    lifetimes(m);
    // concurrent users of one cache directory / one repository cache
    for round in 0..m.size(20, 20) {
        if m.full() {
            return;
        }
        let top = util::fresh("c03r");
        let files: Vec<PathBuf> = (0..3).map(|i| top.join(format!("f{i}/package.py"))).collect();
        let big = "d".repeat(30_000);
        for (i, f) in files.iter().enumerate() {
            touch(f, &format!("{i}"), 1_600_000_000 + i as u64);
        }
        let mut bad: Vec<String> = vec![];
        if round % 2 == 0 {
            let hs: Vec<_> = (0..6u64)
                .map(|t| {
                    let (dir, files, big) = (top.join("cache"), files.clone(), big.clone());
                    std::thread::spawn(move || {
                        let mut q = Rng::new(round as u64 * 31 + t);
                        let mut bad = vec![];
                        for _ in 0..60 {
                            // a cache of its own each time, so that the files are read
                            let c = DefCache::new_file_based(&dir).unwrap();
                            let i = q.below(3);
                            match q.below(6) {
                                0 | 1 => {
                                    if let Err(e) = c.put_package(&files[i], &format!("n{i}"), "1", &format!("{i}{big}")) {
                                        bad.push(format!("put: {e}"));
                                    }
                                }
                                2 => {
                                    if let Err(e) = c.remove(&files[i]) {
                                        bad.push(format!("remove: {e}"));
                                    }
                                }
                                _ => match c.get(&files[i]) {
                                    Ok(Some(p)) if p.name == format!("n{i}") && p.data == format!("{i}{big}") => {}
                                    Ok(None) => {}
                                    Ok(Some(p)) => bad.push(format!("wrong entry {} with {} bytes", p.name, p.data.len())),
                                    Err(e) => bad.push(format!("get: {e}")),
                                },
                            }
                        }
                        bad
                    })
                })
                .collect();
            for h in hs {
                bad.extend(h.join().unwrap_or_else(|_| vec!["panic".into()]));
            }
        } else {
            let rtm = crate::repo::rt([1, 2, 8][round % 3]);
            let rc = Arc::new(RepositoryCache::new(RepoCacheConfig { cache_dir: top.join("rc"), cleanup_interval: 0, ..Default::default() }));
            crumb(format!("C03 concurrent repository cache, round {round}"));
            let ok = rtm.block_on(async {
                let _ = rc.initialize().await;
                let hs: Vec<_> = (0..8u64)
                    .map(|t| {
                        let (rc, files) = (rc.clone(), files.clone());
                        let mut q = Rng::new(round as u64 * 77 + t);
                        tokio::spawn(async move {
                            for _ in 0..80 {
                                let i = q.below(3);
                                let k = format!("n{i}");
                                match q.below(5) {
                                    0 | 1 => {
                                        let mut p = rez_next_package::Package::new(k.clone());
                                        p.description = Some(format!("{i}"));
                                        if let Err(e) = rc.put(&k, p, files[i].clone()).await {
                                            return Some(e.to_string());
                                        }
                                    }
                                    2 => {
                                        let _ = rc.remove(&k).await;
                                    }
                                    3 => {
                                        let _ = rc.get_stats().await;
                                    }
                                    _ => match rc.get(&k).await {
                                        Ok(Some(p)) if p.name == k && p.description == Some(format!("{i}")) => {}
                                        Ok(None) => {}
                                        x => return Some(format!("{x:?}")),
                                    },
                                }
                            }
                            None
                        })
                    })
                    .collect();
                let w = tokio::time::timeout(Duration::from_secs(40), async {
                    let mut bad = vec![];
                    for h in hs {
                        bad.extend(h.await.unwrap_or(Some("panic".into())));
                    }
                    bad
                })
                .await;
                match w {
                    Ok(b) => {
                        bad.extend(b);
                        true
                    }
                    Err(_) => false,
                }
            });
            if !m.check("concurrent calls all return", ok, || json!({"round": round, "cache": "repository"})) {
                std::mem::forget(rtm);
                return;
            }
        }
        m.count("concurrent rounds", 1);
        m.seen(&("round", round));
        m.check("concurrent users of a definition cache get whole entries or nothing", bad.is_empty(), || json!({"round": round, "seen": &bad[..bad.len().min(4)]}));
        util::rm(&top);
    }
}
