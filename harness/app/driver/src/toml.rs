//! Configuration files: every value of every option, alone and together, in the ways TOML has of writing them.
use crate::scene::{NAMES, PATTERNS, decode, one_config};
use vfcommon::{Rng, Value, bytes, json};

/// An option as written, and as the specification sees it (`None`: not of its type).
type Setting = (&'static str, String, Option<(&'static str, Value)>);

fn int(r: &mut Rng, n: i64) -> String {
    match r.below(6) {
        0 if n >= 0 => format!("0x{n:x}"),
        1 if n >= 0 => format!("0b{n:b}"),
        2 if n >= 0 => format!("+{n}"),
        3 if n >= 1000 => format!("{}_{:03}", n / 1000, n % 1000),
        _ => n.to_string(),
    }
}
fn string(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => format!("'{s}'"),
        1 => format!("'''{s}'''"),
        2 => format!("\"\"\"{s}\"\"\""),
        _ => format!("\"{s}\""),
    }
}
fn array(r: &mut Rng, items: &[String]) -> String {
    if r.chance(1, 3) && !items.is_empty() {
        format!("[\n  {},\n]", items.join(", # and\n  "))
    } else {
        format!("[{}]", items.join(", "))
    }
}
const KEYS: [(&str, &str); 11] = [
    ("line-width", "width"), ("indent-width", "indent"), ("indent-style", "style"), ("line-ending", "ending"),
    ("persistent-line-breaks", "persist"), ("assignment-style", "assign"), ("exclude", "exclude"),
    ("default-exclude", "defexclude"), ("skip", "skip"), ("table", "table"), ("default-table", "deftable"),
];
fn number(r: &mut Rng, key: &'static str, field: &'static str, n: i64) -> Setting {
    let fits = n.abs() < 1 << 30;
    (key, int(r, n), if fits { Some((field, json!(n))) } else { None })
}
fn word(r: &mut Rng, key: &'static str, field: &'static str, s: &str) -> Setting {
    (key, string(r, s), Some((field, json!(s))))
}
fn good(r: &mut Rng, k: usize) -> Setting {
    let (key, field) = KEYS[k];
    match k {
        0 => { let n = r.range(1, 320) as i64; number(r, key, field, n) }
        1 => { let n = r.range(1, 24) as i64; number(r, key, field, n) }
        2 => { let s = *r.pick(&["space", "tab"]); word(r, key, field, s) }
        3 => { let s = *r.pick(&["auto", "lf", "crlf", "native"]); word(r, key, field, s) }
        5 => { let s = *r.pick(&["arrow", "equal", "preserve"]); word(r, key, field, s) }
        6 => {
            let ps: Vec<&str> = (0..r.below(3)).map(|_| *r.pick(&PATTERNS)).collect();
            let texts: Vec<String> = ps.iter().map(|p| string(r, p)).collect();
            (key, array(r, &texts), Some((field, Value::Array(ps.iter().map(|p| bytes(p.as_bytes())).collect()))))
        }
        8 | 9 => {
            let ns: Vec<usize> = (0..r.below(4)).map(|_| r.range(1, NAMES.len())).collect();
            let texts: Vec<String> = ns.iter().map(|n| string(r, NAMES[n - 1])).collect();
            (key, array(r, &texts), Some((field, json!(ns))))
        }
        _ => { let b = r.chance(1, 2); (key, b.to_string(), Some((field, json!(b)))) }
    }
}
/// A value that is not of the option's type or not one of its values.
fn ill(r: &mut Rng, k: usize) -> Setting {
    let (key, _) = KEYS[k];
    
    let numbers = k < 2;
    let words = matches!(k, 2 | 3 | 5);
    let bools = matches!(k, 4 | 7 | 10);
    let mut all: Vec<&str> = vec!["1.5", "{}", "[1]", "[[]]", "[true]", "1979-05-27"];
    if !numbers {
        all.push("80");
    }
    if !bools {
        all.extend(["true", "false"]);
    }
    if !matches!(k, 6 | 8 | 9) {
        all.extend(["[]", "[\"a\"]"]);
    }
    if !words {
        all.extend(["\"80\"", "\"true\"", "\"a\"", "\"\""]);
    } else {
        all.extend(["\"\"", "\"Auto\"", "\"TAB\"", "\"spaces\"", "\"cr\"", "\"<-\"", "\"tab \"", "\"LF\"", "\"Arrow\"", "\"left\"", "\"a\"", "\"none\""]);
    }
    (key, r.pick(&all).to_string(), None)
}

fn write(r: &mut Rng, settings: &[Setting]) -> (Value, String) {
    let mut cfg = json!({"ok": true});
    for (_, _, v) in settings {
        match v {
            Some((f, v)) => cfg[*f] = v.clone(),
            None => cfg["ok"] = json!(false),
        }
    }
    let gap = |r: &mut Rng| -> &'static str { *r.pick(&["", "", "\n", "# about\n", "\t\n"]) };
    let mut text = gap(r).to_string();
    let quote = |r: &mut Rng, k: &str| match r.below(5) {
        0 => format!("\"{k}\""),
        1 => format!("'{k}'"),
        _ => k.to_string(),
    };
    match r.below(6) {
        0 if settings.iter().all(|(_, v, _)| !v.contains('\n')) => {
            let items: Vec<String> = settings.iter().map(|(k, v, _)| format!("{} = {v}", quote(r, k))).collect();
            text.push_str(&format!("format = {{ {} }}\n", items.join(", ")));
        }
        1 => {
            for (k, v, _) in settings {
                text.push_str(&format!("format . {} = {v}\n{}", quote(r, k), gap(r)));
            }
        }
        _ => {
            text.push_str(*r.pick(&["[format]\n", "[ format ]\n", "[\"format\"] # here\n"]));
            for (k, v, _) in settings {
                text.push_str(&format!("{}{} = {v}\n{}", r.pick(&["", "  "]), quote(r, k), gap(r)));
            }
        }
    }
    if r.chance(1, 8) {
        text = text.replace('\n', "\r\n");
    }
    (cfg, text)
}

/// Files that are wrong as a whole.
const WRONG: [&str; 17] = [
    "line-width = 80\n", "[lint]\n", "[format.more]\nx = 1\n", "[format]\n[format]\n", "[[format]]\n", "format = 1\n", "[format\n",
    "[format]\nline-width\n", "[format]\nline-width = \n", "[format]\nline-width = 80 90\n", "[format]\nline-width = 80\nline-width = 80\n",
    "[format]\nskip = [\"a\"\n", "[Format]\n", "[format]\nskip = [\"a\", 1]\n", "version = 1\n[format]\n", "\u{0}", "[formats]\nline-width = 80\n",
];
const FINE: [&str; 6] = ["", "\n", "# nothing\n", "[format]", "[format]\n", "format = {}\n"];

fn cases(r: &mut Rng, n: usize) -> Vec<(Value, String)> {
    let mut out = Vec::new();
    let add = |out: &mut Vec<_>, r: &mut Rng, s: &[Setting]| out.push(write(r, s));
    for w in (-3..=330).chain([336, 400, 1000, 32767, 32768, 65535, 65536, 65616, 131152, 1 << 31, (1 << 32) + 80, i64::MAX]) {
        let s = number(r, "line-width", "width", w);
        add(&mut out, r, &[s]);
    }
    for w in (-3..=30).chain([64, 127, 128, 255, 256, 257, 258, 260, 512, 514, 65538, (1 << 32) + 2]) {
        let s = number(r, "indent-width", "indent", w);
        add(&mut out, r, &[s]);
    }
    for (k, (key, _)) in KEYS.iter().enumerate() {
        for _ in 0..8 {
            let s = good(r, k);
            add(&mut out, r, &[s]);
        }
        for _ in 0..10 {
            let s = ill(r, k);
            add(&mut out, r, &[s]);
        }
        // A name that is not quite that of an option
        for other in [key.replace('-', "_"), key.to_uppercase(), format!("{key}s"), key[1..].to_string(), key.replace('-', "")] {
            if KEYS.iter().all(|(k, _)| *k != other) {
                let (_, v, _) = good(r, k);
                let text = format!("[format]\n{other} = {v}\n");
                out.push((json!({"ok": false}), text));
            }
        }
        let s = good(r, k);
        let t = if k == 3 { good(r, 0) } else { word(r, "line-ending", "ending", "crlf") };
        add(&mut out, r, &[s, t]);
    }
    out.extend(WRONG.iter().map(|t| (json!({"ok": false}), t.to_string())));
    out.extend(FINE.iter().map(|t| (json!({"ok": true}), t.to_string())));
    for _ in 0..n {
        let mut ks: Vec<usize> = (0..KEYS.len()).collect();
        r.shuffle(&mut ks);
        ks.truncate(r.range(2, KEYS.len()));
        let mut ss: Vec<Setting> = ks.iter().map(|k| good(r, *k)).collect();
        if r.chance(1, 8) {
            let i = r.below(ss.len());
            ss[i] = ill(r, ks[i]);
        }
        out.push(write(r, &ss));
    }
    out
}

pub fn run(air: &str, n: usize) {
    let mut r = Rng::from_env(7700);
    let all = cases(&mut r, n);
    for (k, (cfg, text)) in all.into_iter().enumerate() {
        let mut ep = one_config(&mut r, air, k, cfg, text.as_bytes());
        ep["toml"] = json!(text);
        ep["as"] = decode(b"");
        vfcommon::emit(&ep);
    }
}
