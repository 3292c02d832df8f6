//! The broker's statistics module, with the synchronisation primitives of `shim` in place of std's.
use std::{env, fs, path::Path};

fn main() {
    println!("cargo:rerun-if-changed=/repo/src/core/broker_info.rs");
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    let src = fs::read_to_string("/repo/src/core/broker_info.rs").expect("no broker_info.rs");
    let mut out = String::new();
    let b: Vec<char> = src.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < b.len() {
        let rest: String = b[i..b.len().min(i + 6)].iter().collect();
        let start = i == 0 || !(word(b[i - 1]));
        // paths that begin with `std::` or `core::`
        if start && rest.starts_with("std::") {
            out += "crate::shim::";
            i += 5;
            // a leading `::`
            if out.ends_with("::crate::shim::") {
                let l = out.len() - "::crate::shim::".len();
                out.truncate(l);
                out += "crate::shim::";
            }
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("broker_info.rs"), out).unwrap();
}
