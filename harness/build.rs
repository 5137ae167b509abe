// Collects the `h_*` entries of src/*.rs for the replay binary's dispatch table.
fn main() {
    let mut v = vec![];
    let mut files: Vec<_> = std::fs::read_dir("src").unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for p in files {
        if p.extension().and_then(|x| x.to_str()) != Some("rs") {
            continue;
        }
        let m = p.file_stem().unwrap().to_str().unwrap().to_string();
        if m == "feat" && std::env::var_os("CARGO_FEATURE_TYPES").is_none() {
            continue;
        }
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            if let Some(r) = l.trim().strip_prefix("entry!(h_") {
                v.push(format!("{m}::h_{}", r.split(',').next().unwrap()));
            }
        }
    }
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/entries.rs"), format!("entries!({});\n", v.join(", "))).unwrap();
    println!("cargo:rerun-if-changed=src");
}
