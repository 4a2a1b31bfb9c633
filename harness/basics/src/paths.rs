//! Run in several working directories: fs relates paths to the one of the process.
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Component, Path, PathBuf};
use vfcommon::{Rng, Value, at, bytes, emit, guarded, json, read_ndjson};

fn parts(p: &Path) -> Value {
    let mut abs = false;
    let mut comps = vec![];
    for c in p.components() {
        match c {
            Component::RootDir => abs = true,
            c => comps.push(bytes(c.as_os_str().as_bytes())),
        }
    }
    json!({"abs": abs, "comps": comps})
}
/// As written: repeated separators and single dots are kept apart from names.
fn raw_parts(p: &Path) -> Value {
    let b = p.as_os_str().as_bytes();
    let comps: Vec<Value> = b.split(|c| *c == b'/').filter(|s| !s.is_empty()).map(bytes).collect();
    json!({"abs": b.first() == Some(&b'/'), "comps": comps})
}

fn observe(p: &Path, ext: bool) -> Value {
    let res = guarded(|| {
        let normal = fs::normalize_path(p);
        let again = fs::normalize_path(&normal);
        let relative = PathBuf::from(fs::relativize_path(&normal));
        let r = fs::has_r_extension(p);
        // The extension alone gives the same answer.
        let e = p.extension().and_then(OsStr::to_str).is_some_and(fs::is_r_extension);
        let mut v = json!({"path": raw_parts(p), "normal": raw_parts(&normal), "again": raw_parts(&again), "relative": parts(&relative), "r": r});
        v["agree"] = json!(!ext || e == r);
        v["lossy"] = json!(p.to_str().is_none());
        v["panic"] = json!(false);
        v
    });
    let mut v = res.unwrap_or_else(|e| json!({"path": raw_parts(p), "panic": true, "msg": e}));
    v["cwd"] = raw_parts(&std::env::current_dir().unwrap())["comps"].clone();
    v
}

/// Replayed in the working directory of the process, which stands for the `cwd` of the case.
pub fn replay(file: &str) {
    let here = std::env::current_dir().unwrap();
    for case in read_ndjson(file) {
        // Specification paths are relative to a root: absolute ones are mapped below `base`, whose depth keeps `..` honest.
        let comps: Vec<Vec<u8>> = case["path"]["comps"].as_array().unwrap().iter().map(|c| c.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()).collect();
        let mut b: Vec<u8> = if case["path"]["abs"] == true { b"/".to_vec() } else { vec![] };
        b.extend(comps.join(&b'/'));
        let p = PathBuf::from(OsStr::from_bytes(&b));
        at(&p.to_string_lossy());
        let got = observe(&p, true);
        if got["cwd"] != case["cwd"] {
            emit(&json!({"what": "driver is in the wrong directory", "here": here.to_string_lossy()}));
            return;
        }
        if got["agree"] != true {
            emit(&json!({"what": "panic or disagreement about the extension", "path": p.to_string_lossy(), "got": got}));
            continue;
        }
        for k in ["normal", "r", "relative"] {
            let want = if k == "normal" { json!({"abs": true, "comps": case[k]}) } else { case[k].clone() };
            if got[k] != want {
                emit(&json!({"what": k, "path": p.to_string_lossy(), "cwd": here.to_string_lossy(), "got": got[k], "want": want}));
            }
        }
    }
}

const NAMES: &[&[u8]] = &[
    b"a", b"b", b"R", b"r", b"a.R", b"a.r", b".R", b".r", b"a.", b"a..R", b"..R", b"...", b"....r", b"a.R.txt", b"a.txt.R", b"a.Rmd", b"a.rr", b"a.RR",
    b"a.R ", b" .R", b"~", b"a b.R", b"a.\xc3\xa9", b"\xe6\x97\xa5.R", b"a.\xff", b"\xff.R", b"a.R~", b".a.R", b"-", b"a\\b.R", b"a:b.r", b"C:",
    b"tmp", b"src", b"x.S", b"a.\xd1\x80", b"a.R\n",
];

pub fn trace(n: usize) {
    let mut rng = Rng::from_env(22);
    let here = std::env::current_dir().unwrap();
    let cwd: Vec<&[u8]> = here.as_os_str().as_bytes().split(|c| *c == b'/').filter(|s| !s.is_empty()).collect();
    for _ in 0..n {
        let mut b: Vec<u8> = vec![];
        match rng.below(6) {
            0 | 1 => b.push(b'/'),
            2 => {
                // At, above or beside the working directory
                for c in &cwd[..rng.below(cwd.len() + 1)] {
                    b.push(b'/');
                    b.extend(*c);
                }
                if rng.chance(1, 4) {
                    b.extend(*rng.pick(&[&b"a"[..], b".R", b"x"]));
                }
                b.push(b'/');
            }
            _ => {}
        }
        for i in 0..rng.below(7) {
            if i > 0 || rng.chance(1, 30) {
                b.push(b'/');
                if rng.chance(1, 12) {
                    b.push(b'/');
                }
            }
            match rng.below(6) {
                0 => b.extend(b".."),
                1 if rng.chance(1, 2) => b.extend(b"."),
                2 if !cwd.is_empty() => b.extend(*rng.pick(&cwd)),
                _ => b.extend(*rng.pick(NAMES)),
            }
        }
        if rng.chance(1, 8) {
            b.push(b'/');
        }
        // A lossy spelling can't be compared
        let p = PathBuf::from(OsStr::from_bytes(&b));
        at(&p.to_string_lossy());
        emit(&observe(&p, true));
    }
}
