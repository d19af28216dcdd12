//! The work of the few standard-library functions that walk a whole slice and are compiled into the
//! prebuilt library (so without callbacks) is made visible by wrapping them at link time.
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let rustc = std::env::var("RUSTC").unwrap_or_else(|_| "rustc".into());
    let mut code = String::new();
    let dir = Command::new(&rustc).args(["--print", "target-libdir"]).output().map(|o| String::from_utf8_lossy(&o.stdout).trim().to_string()).unwrap_or_default();
    // demangled name, arguments, result, length expression
    let wanted = [
        ("libcore-", "core::str::converts::from_utf8", "v: &[u8]", "v", "Result<&str, std::str::Utf8Error>", "r.as_ref().err().map_or(n, |e| e.valid_up_to())"),
        ("libcore-", "core::str::converts::from_utf8_mut", "v: &mut [u8]", "v", "Result<&mut str, std::str::Utf8Error>", "r.as_ref().err().map_or(n, |e| e.valid_up_to())"),
        ("libcore-", "core::str::count::do_count_chars", "v: &str", "v", "usize", "n"),
        ("libcore-", "core::str::count::char_count_general_case", "v: &[u8]", "v", "usize", "n"),
        ("libcore-", "core::slice::memchr::memchr_aligned", "c: u8, v: &[u8]", "c, v", "Option<usize>", "r.unwrap_or(n)"),
        ("libcore-", "core::slice::memchr::memrchr_aligned", "c: u8, v: &[u8]", "c, v", "Option<usize>", "n"),
        ("liballoc-", "<alloc::string::String>::from_utf8_lossy", "v: &[u8]", "v", "std::borrow::Cow<'_, str>", "n"),
        ("liballoc-", "<str>::to_lowercase", "v: &str", "v", "String", "n"),
        ("liballoc-", "<str>::to_uppercase", "v: &str", "v", "String", "n"),
    ];
    for lib in ["libcore-", "liballoc-"] {
        let Some(path) = std::fs::read_dir(&dir).ok().and_then(|d| d.flatten().map(|e| e.path()).find(|p| {
            let n = p.file_name().unwrap().to_string_lossy().into_owned();
            n.starts_with(lib) && n.ends_with(".rlib")
        })) else { continue };
        let nm = |args: &[&str]| Command::new("nm").args(args).arg(&path).output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        let (raw, nice) = (nm(&["--defined-only"]), nm(&["--defined-only", "-C"]));
        if raw.lines().count() != nice.lines().count() {
            continue;
        }
        for (k, (l, name, args, pass, ret, len)) in wanted.iter().enumerate() {
            if *l != lib {
                continue;
            }
            let mut hits = raw.lines().zip(nice.lines()).filter(|(_, n)| n.splitn(3, ' ').nth(1) == Some("T") && n.splitn(3, ' ').nth(2) == Some(name));
            let (Some((r, _)), None) = (hits.next(), hits.next()) else { continue };
            let sym = r.splitn(3, ' ').nth(2).unwrap();
            code.push_str(&format!(
                "extern \"Rust\" {{ #[link_name = \"__real_{sym}\"] fn real{k}({args}) -> {ret}; }}\n#[export_name = \"__wrap_{sym}\"] fn wrap{k}({args}) -> {ret} {{ let n = v.len(); let r = unsafe {{ real{k}({pass}) }}; moved({len}); r }}\n"
            ));
            println!("cargo:rustc-link-arg=-Wl,--wrap={sym}");
        }
    }
    std::fs::write(format!("{out}/wrapped.rs"), code).unwrap();
}
