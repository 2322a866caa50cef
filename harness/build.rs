//! The reference implementation once more, with a way to move a hasher to a
//! large position, which takes its private fields. If those are not what they
//! used to be, the driver does without.
use std::process::{Command, Stdio};

const SOURCE: &str = "/repo/reference_impl/reference_impl.rs";
const MORE: &str = r#"
#[allow(dead_code)]
pub fn vp_fast_forward(hasher: &mut Hasher, chunks: u64, cvs: &[[u8; 32]]) {
    for cv in cvs {
        let mut words = [0u32; 8];
        for i in 0..8 {
            words[i] = u32::from_le_bytes([cv[4 * i], cv[4 * i + 1], cv[4 * i + 2], cv[4 * i + 3]]);
        }
        hasher.subtree_stack[hasher.subtree_stack_len as usize] = words;
        hasher.subtree_stack_len += 1;
    }
    hasher.chunk_state.offset = chunks * 2048;
}
"#;

fn main() {
    println!("cargo:rustc-check-cfg=cfg(ref_ff)");
    println!("cargo:rerun-if-changed={}", SOURCE);
    // (Also the build script of port/.)
    let script = if std::path::Path::new("build.rs").exists() { "build.rs" } else { "../build.rs" };
    println!("cargo:rerun-if-changed={}", script);
    let out = std::env::var("OUT_DIR").unwrap();
    let path = format!("{}/ref_ff.rs", out);
    let text = match std::fs::read_to_string(SOURCE) {
        Ok(t) => t,
        Err(_) => return,
    };
    let body: Vec<&str> = text.lines().filter(|l| !l.starts_with("//!") && !l.starts_with("#![")).collect();
    std::fs::write(&path, body.join("\n") + MORE).unwrap();
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let ok = Command::new(rustc)
        .args(&["--edition=2018", "--crate-type=lib", "--crate-name=ref_ff", "--emit=metadata", "-o"])
        .arg(format!("{}/ref_ff.rmeta", out))
        .arg(&path)
        .stderr(Stdio::null())
        .status()
        .map_or(false, |s| s.success());
    if ok {
        println!("cargo:rustc-cfg=ref_ff");
    }
}
