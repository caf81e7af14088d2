mod mon;
mod pkgs;
mod util;
mod repo;
mod files;
mod helpers;
mod envs;
mod builds;
mod caches;
mod cli;
mod bind;
mod conf;
mod pkgtest;
mod misc;
mod reqs;
mod solv;
mod vers;

use mon::Mon;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 2 && a[1].starts_with("child:") {
        std::process::exit(util::child(&a[1][6..], &a[2..]));
    }
    if a.len() < 6 {
        eprintln!("usage: rezmon ID TIER SEED OUTDIR KNOWNFILE");
        std::process::exit(2);
    }
    mon::install_panic_hook();
    let seed: u64 = a[3].parse().unwrap_or(1);
    let mut m = Mon::new(&a[1], &a[2], seed, &a[5]);
    let run: fn(&mut Mon) = match a[1].as_str() {
        "V01" => vers::v01,
        "V02" => vers::v02,
        "R01" => reqs::r01,
        "S01" => solv::s01,
        "S02" => solv::s02,
        "S03" => solv::s03,
        "S04" => solv::s04,
        "S05" => solv::s05,
        "D01" => repo::d01,
        "D02" => repo::d02,
        "Q01" => repo::q01,
        "F01" => files::f01,
        "C01" => caches::c01,
        "C02" => caches::c02,
        "C03" => caches::c03,
        "P01" => pkgs::p01,
        "P02" => pkgs::p02,
        "E01" => envs::e01,
        "E02" => envs::e02,
        "E03" => envs::e03,
        "X01" => envs::x01,
        "B01" => builds::b01,
        "B02" => builds::b02,
        "L01" => builds::l01,
        "K01" => cli::k01,
        "T01" => pkgtest::t01,
        "N01" => conf::n01,
        "I01" => bind::i01,
        "H01" => helpers::h01,
        "W01" => helpers::w01,
        "G01" => misc::g01,
        "O01" => misc::o01,
        "U01" => misc::u01,
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2);
        }
    };
    mon::watchdog(&a[1], &a[2], seed, &a[4]);
    // a big stack, so that only genuinely unbounded recursion overflows
    let out = a[4].clone();
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            run(&mut m);
            m.finish(&out)
        })
        .unwrap()
        .join();
    match code {
        Ok(c) => std::process::exit(c),
        Err(_) => {
            let (loc, msg) = mon::take_panic();
            if loc.starts_with("src/") || loc.contains("/verif/") {
                eprintln!("HARNESS-ERROR unguarded panic at {loc}: {msg}");
                std::process::exit(3);
            }
            mon::emergency(&a[1], &a[2], seed, &a[4], "the code under test panicked", &format!("{loc}: {msg}"));
        }
    }
}
