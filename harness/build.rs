//! Generates the table of harness entry points for the replay binary.
use std::fmt::Write;
fn main() {
    let mut names = vec![];
    for f in std::fs::read_dir("src").unwrap().flatten() {
        let p = f.path();
        if p.extension().map_or(true, |e| e != "rs") {
            continue;
        }
        let m = p.file_stem().unwrap().to_string_lossy().into_owned();
        println!("cargo:rerun-if-changed={}", p.display());
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            if let Some(r) = l.strip_prefix("pub extern \"C\" fn ") {
                let n = r.split('(').next().unwrap().to_string();
                let sep = if m == "lib" { String::new() } else { format!("{m}::") };
                names.push((n.clone(), format!("crate::{sep}{n}")));
            }
        }
    }
    println!("cargo:rerun-if-changed=src");
    names.sort();
    let mut o = String::from("pub static REG: &[(&str, extern \"C\" fn(u64, u64, u64))] = &[\n");
    for (n, p) in names {
        writeln!(o, "    ({n:?}, {p}),").unwrap();
    }
    o.push_str("];\n");
    std::fs::write(format!("{}/reg.rs", std::env::var("OUT_DIR").unwrap()), o).unwrap();
}
