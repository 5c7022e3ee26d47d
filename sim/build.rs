//! The entry point of the program under test is a binary, so it cannot be linked as a
//! dependency: its source is taken over as a module of the simulator at every build.
use std::path::Path;

fn main() {
    // libssl/libcrypto and std's weak lookups must find the simulated symbols
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rustc-link-arg-bins=-ldl");
    println!("cargo:rerun-if-changed=/repo/src");
    println!("cargo:rerun-if-changed=build.rs");
    let src = std::fs::read_to_string("/repo/src/main.rs").expect("/repo/src/main.rs");
    let mut out = String::new();
    for line in src.lines() {
        let t = line.trim();
        if t.starts_with("#![") && t.ends_with(']') {
            out.push('\n');
            continue;
        }
        let name = t.strip_prefix("pub(crate) ").or(t.strip_prefix("pub ")).unwrap_or(t);
        if let Some(m) = name.strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            if !line.starts_with(char::is_whitespace) {
                for p in [format!("/repo/src/{m}.rs"), format!("/repo/src/{m}/mod.rs")] {
                    if Path::new(&p).exists() {
                        out.push_str(&format!("#[path = {p:?}] "));
                        break;
                    }
                }
            }
        }
        out.push_str(&line.replace("crate::", "crate::cli::").replace("$crate::cli::", "$crate::cli::"));
        out.push('\n');
    }
    out.push_str(
        "
/// The exit code of the program, as `std` would compute it.
pub fn entry() -> i32 {
    let c: std::process::ExitCode = std::process::Termination::report(main());
    const _: () = assert!(std::mem::size_of::<std::process::ExitCode>() == 1);
    unsafe { std::mem::transmute::<std::process::ExitCode, u8>(c) as i32 }
}
",
    );
    std::fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("cli.rs"), out).unwrap();
}
