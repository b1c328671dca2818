//! Copies the visualizer's sources and wraps them as two modules of this crate. The program's text
//! is unchanged except that paths through the crate root name its module, and that a public
//! function calling `main` is added.
use std::path::{Path, PathBuf};

fn copy(from: &Path, to: &Path, module: &str) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let q = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &q, module);
        } else if p.extension().map_or(false, |x| x == "rs") {
            std::fs::write(&q, root_paths(&std::fs::read_to_string(&p).unwrap(), module)).unwrap();
        }
    }
}

/// `crate::x` becomes `crate::module::x`.
fn root_paths(s: &str, module: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("crate::") {
        let before = rest[..i].chars().last();
        out.push_str(&rest[..i + 7]);
        if !before.map_or(false, |c| c == '$' || c == '_' || c.is_alphanumeric()) {
            out.push_str(module);
            out.push_str("::");
        }
        rest = &rest[i + 7..];
    }
    out.push_str(rest);
    out.replace("extern crate kuba_viz;", "")
}

fn main() {
    let src = Path::new("/repo/viz/src");
    println!("cargo:rerun-if-changed={}", src.display());
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let (bin, lib) = (out.join("bin"), out.join("lib"));
    let _ = std::fs::remove_dir_all(&bin);
    let _ = std::fs::remove_dir_all(&lib);
    copy(&src.join("bin"), &bin, "app");
    copy(src, &lib, "kuba_viz");
    let app = ["draw_occupancy_grid.rs", "draw_occupancy_grid/main.rs"]
        .iter()
        .map(|f| bin.join(f))
        .find(|f| f.exists())
        .expect("viz/src/bin/draw_occupancy_grid.rs");
    let mut s = std::fs::read_to_string(&app).unwrap();
    s.push_str("\n#[allow(unused_imports)]\nuse crate::kuba_viz;\npub fn __sim_main() {\n    let _ = main();\n}\n");
    std::fs::write(&app, s).unwrap();
    let mut root = String::new();
    if lib.join("lib.rs").exists() {
        root.push_str(&format!("#[path = {:?}]\npub mod kuba_viz;\n", lib.join("lib.rs")));
    } else {
        root.push_str("pub mod kuba_viz {}\n");
    }
    root.push_str(&format!("#[path = {:?}]\npub mod app;\n", app));
    std::fs::write(out.join("root.rs"), root).unwrap();
}
