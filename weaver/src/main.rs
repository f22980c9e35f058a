//! Mechanical extraction of /repo's current sources into a Verus crate.
//!
//! The text that is verified is the text of /repo: every function body is copied
//! byte for byte and only *insertions* (contracts, loop invariants, proof blocks)
//! and a fixed, reported list of token rewrites are applied to it.
//!
//! usage: weaver <repo-src> <spec-dir> <out-dir> [--demote key,key,..] [--strip key,key,..]
//!   --demote: keep the contract but mark the body external (assumed)
//!   --strip : drop the contract as well (function external)
mod spec;
mod weave;

use std::collections::HashSet;
use std::path::Path;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => {}
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: weaver SRC SPEC OUT [--demote k,k] [--strip k,k]");
        std::process::exit(2);
    }
    let (src, specdir, out) = (Path::new(&args[1]), Path::new(&args[2]), Path::new(&args[3]));
    let mut demote: HashSet<String> = HashSet::new();
    let mut strip: HashSet<String> = HashSet::new();
    let mut only: HashSet<String> = HashSet::new();
    let mut i = 4;
    while i + 1 < args.len() {
        let set: HashSet<String> = args[i + 1].split(';').filter(|s| !s.is_empty()).map(String::from).collect();
        match args[i].as_str() {
            "--demote" => demote = set,
            "--strip" => strip = set,
            "--modules" => only = set,
            other => {
                eprintln!("unknown option {other}");
                std::process::exit(2)
            }
        }
        i += 2;
    }
    std::fs::create_dir_all(out).unwrap();
    let mut specs: Vec<spec::ModuleSpec> = vec![];
    let mut names: Vec<_> = std::fs::read_dir(specdir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "spec")).collect();
    names.sort();
    for p in names {
        let text = std::fs::read_to_string(&p).unwrap();
        match spec::parse(&text) {
            Ok(m) => {
                if only.is_empty() || only.contains(&m.name) {
                    specs.push(m)
                }
            }
            Err(e) => {
                eprintln!("{}: {e}", p.display());
                std::process::exit(2);
            }
        }
    }
    let mut lib = String::from("#![feature(const_destruct, allocator_api)]\n#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, non_snake_case, unused_assignments, unused_must_use, unreachable_code)]\n#![cfg_attr(verus_keep_ghost, verifier::exec_allows_no_decreases_clause)]\nuse vstd::prelude::*;\n");
    let mut report = String::from("{\"modules\":[\n");
    let mut fatal = false;
    // hand written, code independent verus modules: spec/*.rs
    let mut extra: Vec<_> = std::fs::read_dir(specdir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "rs")).collect();
    extra.sort();
    for p in extra {
        let stem = p.file_stem().unwrap().to_string_lossy().to_string();
        std::fs::copy(&p, out.join(format!("{stem}.rs"))).unwrap();
        lib.push_str(&format!("pub mod {stem};\n"));
    }
    let mut first = true;
    for m in &specs {
        let path = src.join(format!("{}.rs", m.name));
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("{}: {e}", path.display());
                fatal = true;
                continue;
            }
        };
        match weave::weave(m, &text, &demote, &strip) {
            Ok(w) => {
                std::fs::write(out.join(format!("{}.rs", m.name)), &w.text).unwrap();
                lib.push_str(&format!("pub mod {};\n", m.name));
                if !first {
                    report.push_str(",\n");
                }
                first = false;
                report.push_str(&w.report);
            }
            Err(e) => {
                eprintln!("{}: {e}", path.display());
                fatal = true;
            }
        }
    }
    report.push_str("\n]}\n");
    std::fs::write(out.join("lib.rs"), lib).unwrap();
    std::fs::write(out.join("report.json"), report).unwrap();
    std::process::exit(if fatal { 3 } else { 0 });
}
