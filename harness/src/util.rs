use std::path::{Path, PathBuf};

/// Scratch directory for this run (created by run.sh, owned by an unprivileged user).
pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("REZMON_SCRATCH").expect("REZMON_SCRATCH"))
}

pub fn fresh(name: &str) -> PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed);
    let p = scratch().join(format!("{name}-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}

pub fn write(p: impl AsRef<Path>, s: &str) {
    let p = p.as_ref();
    if let Some(d) = p.parent() {
        std::fs::create_dir_all(d).unwrap();
    }
    std::fs::write(p, s).unwrap();
}

pub fn rm(p: &Path) {
    assert!(p.starts_with(scratch()), "refusing to remove {p:?}");
    let _ = std::fs::remove_dir_all(p);
}

/// helper processes used by crash / concurrency workloads
pub fn child(name: &str, args: &[String]) -> i32 {
    match name {
        "rmpkg" => {
            use rez_next_repository::package_repository::PackageRepository;
            let mut r = rez_next_repository::FilesystemPackageRepository::new(&args[0]);
            i32::from(r.remove_package(&args[1], Some(&args[2])).is_err())
        }
        "cppkg" => crate::files::child_cppkg(args),
        "addvar" => crate::caches::child_addvar(args),
        "dump" => crate::cli::child_dump(args),
        "shell" => crate::envs::child_shell(args),
        "bind" => crate::bind::child_bind(args),
        "util" => crate::helpers::child_util(args),
        "config" => crate::conf::child_config(args),
        "relmgr" => crate::builds::child_relmgr(args),
        _ => {
            eprintln!("unknown child {name}");
            2
        }
    }
}
