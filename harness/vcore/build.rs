// Generates the pool of compile-time RGB colors.  Const generics cannot be chosen at run
// time, so this is where the generated part of that input space lives: a pure function
// of VERIF_SEED.  Every value 0..=255 occurs in each of the three positions, and digit
// count boundaries are combined with each other.
use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    let mut next = move || {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    };
    let edge = [0u8, 1, 9, 10, 19, 99, 100, 101, 109, 110, 199, 200, 255];
    let pick = |n: &mut dyn FnMut() -> u64| -> u8 {
        let r = n();
        if r & 1 == 0 {
            edge[(r >> 8) as usize % edge.len()]
        } else {
            (r >> 8) as u8
        }
    };
    let mut small: Vec<[u8; 3]> = vec![[0, 0, 0], [255, 255, 255], [9, 10, 99], [100, 9, 200], [10, 255, 1]];
    while small.len() < 40 {
        let t = [pick(&mut next), pick(&mut next), pick(&mut next)];
        if !small.contains(&t) {
            small.push(t);
        }
    }
    let mut large: Vec<[u8; 3]> = small.clone();
    for pos in 0..3 {
        for v in 0..=255u8 {
            let mut t = [pick(&mut next), pick(&mut next), pick(&mut next)];
            t[pos] = v;
            if !large.contains(&t) {
                large.push(t);
            }
        }
    }
    let mut o = String::new();
    for (name, pool) in [("rgb_small", &small), ("rgb_large", &large)] {
        write!(o, "#[macro_export]\nmacro_rules! {name} {{ ($m:ident $($pre:tt)*) => {{ $m! {{ $($pre)* ;\n").unwrap();
        for (i, [r, g, b]) in pool.iter().enumerate() {
            writeln!(o, "{i} {r} {g} {b}").unwrap();
        }
        o.push_str("} }; }\n");
        writeln!(o, "pub const {}: [(u8, u8, u8); {}] = [", name.to_uppercase(), pool.len()).unwrap();
        for [r, g, b] in pool.iter() {
            writeln!(o, "({r}, {g}, {b}),").unwrap();
        }
        o.push_str("];\n");
    }
    let dir = std::env::var("OUT_DIR").unwrap();
    let path = format!("{dir}/rgb_pool.rs");
    if std::fs::read_to_string(&path).ok().as_deref() != Some(&o) {
        std::fs::write(path, o).unwrap();
    }
    if std::env::var("CARGO_FEATURE_GUIDED").is_ok() {
        println!("cargo:rerun-if-changed=guided.c");
        let run = |c: &str, a: &[&str]| {
            let ok = std::process::Command::new(c).args(a).status().is_ok_and(|s| s.success());
            assert!(ok, "{c} failed");
        };
        let (o, a) = (format!("{dir}/guided.o"), format!("{dir}/libguided.a"));
        run("cc", &["-O2", "-fno-builtin", "-fPIC", "-c", "guided.c", "-o", &o]);
        let _ = std::fs::remove_file(&a);
        run("ar", &["crs", &a, &o]);
        println!("cargo:rustc-link-search=native={dir}");
        println!("cargo:rustc-link-lib=static:+whole-archive=guided");
    }
}
