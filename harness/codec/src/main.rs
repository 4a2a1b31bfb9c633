//! Drives crates/lsp_test's codec.
#[allow(dead_code, unused_imports)]
#[path = "/repo/crates/lsp_test/src/tower_lsp/codec.rs"]
mod codec;

use std::fmt;

use bytes::BytesMut;
use codec::{LanguageServerCodec, ParseError};
use futures::StreamExt;
use serde::Deserialize;
use serde::de::{Deserializer, MapAccess, SeqAccess, Visitor};
use serde_json::{Value, json};
use tokio_util::codec::{Decoder, Encoder, FramedRead};
use vfcommon::{Rng, bytes as jbytes, emit, guarded};

/// A JSON document as its text without insignificant white space and with escapes resolved.
#[derive(Debug, PartialEq, Clone)]
struct Canon(Vec<u8>);

impl<'de> Deserialize<'de> for Canon {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Canon;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Canon, E> {
                Ok(Canon(v.to_string().into_bytes()))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Canon, E> {
                Ok(Canon(v.to_string().into_bytes()))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Canon, E> {
                Ok(Canon(v.to_string().into_bytes()))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Canon, E> {
                Ok(Canon(format!("float {v}").into_bytes()))
            }
            fn visit_unit<E>(self) -> Result<Canon, E> {
                Ok(Canon(b"null".to_vec()))
            }
            fn visit_str<E>(self, v: &str) -> Result<Canon, E> {
                Ok(Canon(format!("\"{v}\"").into_bytes()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Canon, A::Error> {
                let mut out = b"[".to_vec();
                while let Some(Canon(x)) = a.next_element()? {
                    if out.len() > 1 {
                        out.push(b',');
                    }
                    out.extend(x);
                }
                out.push(b']');
                Ok(Canon(out))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Canon, A::Error> {
                let mut out = b"{".to_vec();
                while let Some((Canon(k), Canon(v))) = a.next_entry()? {
                    if out.len() > 1 {
                        out.push(b',');
                    }
                    out.extend(k);
                    out.push(b':');
                    out.extend(v);
                }
                out.push(b'}');
                Ok(Canon(out))
            }
        }
        d.deserialize_any(V)
    }
}

fn err_kind(e: &ParseError) -> &'static str {
    match e {
        ParseError::Body(_) => "body",
        ParseError::Encode(_) => "encode",
        ParseError::Headers(_) => "headers",
        ParseError::InvalidContentType => "type",
        ParseError::InvalidContentLength(_) => "length",
        ParseError::MissingContentLength => "missing",
        ParseError::Utf8(_) => "utf8",
    }
}

fn ints(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

const EMPTIES: usize = 300;
struct Run {
    out: Vec<Vec<u8>>,
    errs: usize,
}

/// Asks until there is nothing more to say; `patient` goes on as long as bytes are consumed.
fn drain(codec: &mut LanguageServerCodec<Canon>, buf: &mut BytesMut, run: &mut Run, patient: bool) -> Result<(), String> {
    for _ in 0..200_000 {
        let before = buf.len();
        match codec.decode(buf) {
            Ok(Some(Canon(m))) => run.out.push(m),
            Ok(None) if patient && buf.len() < before => {}
            Ok(None) => return Ok(()),
            Err(_) => {
                run.errs += 1;
                if buf.len() == before {
                    return Ok(());
                }
            }
        }
    }
    Err("never stops".into())
}

fn check(stream: &[u8], msgs: &[(Vec<u8>, usize)], clean: bool, cuts: &[usize], patient: bool) -> Result<(), Value> {
    let got = guarded(|| {
        let mut codec = LanguageServerCodec::<Canon>::default();
        let mut buf = BytesMut::new();
        let mut run = Run { out: vec![], errs: 0 };
        let mut from = 0;
        for &to in cuts.iter().chain([&stream.len()]) {
            buf.extend_from_slice(&stream[from..to]);
            from = to;
            drain(&mut codec, &mut buf, &mut run, patient).map_err(|e| json!({"at": to, "error": e}))?;
            let due: Vec<&[u8]> = msgs.iter().filter(|m| m.1 <= to).map(|m| &m.0[..]).collect();
            if run.out != due {
                return Err(json!({"at": to, "delivered": run.out.iter().map(|m| String::from_utf8_lossy(m)).collect::<Vec<_>>(),
                    "expected": due.iter().map(|m| String::from_utf8_lossy(m)).collect::<Vec<_>>()}));
            }
        }
        if clean && (run.errs != 0 || !buf.is_empty()) {
            return Err(json!({"errors": run.errs, "left": buf.len()}));
        }
        Ok(())
    });
    match got {
        Ok(r) => r,
        Err(p) => Err(json!({"panic": p})),
    }
}

/// The same through a framed reader over chunks, with an error ending one pass.
fn check_framed(stream: &[u8], msgs: &[(Vec<u8>, usize)], cuts: &[usize]) -> Result<(), Value> {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let got = guarded(|| {
        rt.block_on(async {
            let mut chunks = vec![];
            let mut from = 0;
            for &to in cuts.iter().chain([&stream.len()]) {
                if from < to {
                    chunks.push(stream[from..to].to_vec());
                }
                from = to;
            }
            let mut reader = FramedRead::new(Chunks(chunks.into()), LanguageServerCodec::<Canon>::default());
            let mut out = vec![];
            let mut ends = 0;
            for _ in 0..10_000 {
                match reader.next().await {
                    Some(Ok(Canon(m))) => {
                        ends = 0;
                        out.push(m)
                    }
                    Some(Err(_)) => {}
                    None => {
                        ends += 1;
                        if ends > 3 {
                            break;
                        }
                    }
                }
            }
            out
        })
    });
    let due: Vec<Vec<u8>> = msgs.iter().map(|m| m.0.clone()).collect();
    match got {
        Ok(out) if out == due => Ok(()),
        Ok(out) => Err(json!({"framed": out.len(), "expected": due.len()})),
        Err(p) => Err(json!({"panic": p})),
    }
}

struct Chunks(std::collections::VecDeque<Vec<u8>>);
impl tokio::io::AsyncRead for Chunks {
    fn poll_read(
        mut self: std::pin::Pin<&mut Self>,
        _: &mut std::task::Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> std::task::Poll<std::io::Result<()>> {
        if let Some(mut c) = self.0.pop_front() {
            let n = c.len().min(buf.remaining());
            buf.put_slice(&c[..n]);
            if n < c.len() {
                c.drain(..n);
                self.0.push_front(c);
            }
        }
        std::task::Poll::Ready(Ok(()))
    }
}

fn replay(path: &str) {
    for case in vfcommon::read_ndjson(path) {
        vfcommon::at(&case["kinds"].to_string());
        let stream = ints(&case["bytes"]);
        let msgs: Vec<(Vec<u8>, usize)> = case["msgs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|m| (ints(&m["msg"]), m["end"].as_u64().unwrap() as usize))
            .collect();
        let clean = case["clean"].as_bool().unwrap();
        let n = stream.len();
        let mut ways: Vec<Vec<usize>> = vec![vec![], (1..n).collect()];
        for i in 1..n {
            ways.push(vec![i]);
            for j in i + 1..n {
                ways.push(vec![i, j]);
            }
        }
        let mut failed = 0;
        for cuts in &ways {
            if let Err(e) = check(&stream, &msgs, clean, cuts, false) {
                let mut cuts = cuts.clone();
                cuts.push(n);
                emit(&json!({"kinds": case["kinds"], "stream": String::from_utf8_lossy(&stream), "cuts": cuts, "got": e,
                             "events": record(&stream, &cuts)}));
                failed += 1;
                if failed == 3 {
                    break;
                }
            }
        }
        // Empty messages are no steps of the specification, so any number of them makes no difference.
        if clean && !msgs.is_empty() {
            let empties = b"Content-Length: 0\r\n\r\n".repeat(EMPTIES);
            let more: Vec<_> = msgs.iter().map(|m| (m.0.clone(), m.1 + empties.len())).collect();
            if let Err(e) = check(&[&empties[..], &stream].concat(), &more, clean, &[], true) {
                emit(&json!({"kinds": case["kinds"], "empties": EMPTIES, "stream": String::from_utf8_lossy(&stream), "got": e}));
            }
        }
        if clean {
            for cuts in ways.iter().take(40) {
                if let Err(e) = check_framed(&stream, &msgs, cuts) {
                    emit(&json!({"kinds": case["kinds"], "stream": String::from_utf8_lossy(&stream), "cuts": cuts, "got": e, "framed": true}));
                    break;
                }
            }
        }
    }
}

fn document(rng: &mut Rng, depth: usize) -> String {
    let ws = |rng: &mut Rng| if rng.chance(1, 6) { *rng.pick(&[" ", "\r\n", "\n", "\t"]) } else { "" };
    let mut s = ws(rng).to_string();
    match rng.below(if depth == 0 { 5 } else { 8 }) {
        0 => s += &rng.below(1000).to_string(),
        1 => s += *rng.pick(&["true", "false", "null"]),
        2 => s += "0",
        3 | 4 => {
            s += "\"";
            for _ in 0..rng.below(5) {
                s += *rng.pick(&["a", "b", "é", "\\n", "\\\"", "\\\\", "语", "😀", " ", "Content-Length", ":", "{", "\\t"]);
            }
            s += "\"";
        }
        5 => {
            s += "[";
            for i in 0..rng.below(4) {
                if i > 0 {
                    s += ",";
                }
                s += &document(rng, depth - 1);
            }
            s += "]";
        }
        _ => {
            s += "{";
            for i in 0..rng.below(4) {
                if i > 0 {
                    s += ",";
                }
                s += ws(rng);
                s += *rng.pick(&["\"jsonrpc\"", "\"method\"", "\"id\"", "\"a\"", "\"é\"", "\"\""]);
                s += ws(rng);
                s += ":";
                s += &document(rng, depth - 1);
            }
            s += ws(rng);
            s += "}";
        }
    }
    s + ws(rng)
}

fn frame(rng: &mut Rng, good: bool) -> Vec<u8> {
    let body = if rng.chance(1, 12) { String::new() } else { document(rng, 2) };
    let eol = if good || rng.chance(5, 6) { "\r\n" } else { "\n" };
    let len = body.len();
    let mut headers = vec![if good || rng.chance(3, 4) {
        format!("Content-Length: {len}")
    } else {
        let n = rng.below(len + 3);
        let forms = [
            format!("Content-Length:{len}"),
            format!("Content-Length:  {len} "),
            format!("Content-Length: 00{len}"),
            format!("Content-Length: +{len}"),
            format!("Content-Length: {n}"),
            format!("Content-Length: {len}x"),
            format!("Content-Length : {len}"),
            format!("content-length: {len}"),
            "Content-Length:".into(),
            "Content-Length: 9999999999999999999999999".into(),
            "Content-Length: 999999999999".into(),
        ];
        rng.pick(&forms).clone()
    }];
    if rng.chance(1, 3) {
        let ok = [
            "Content-Type: application/vscode-jsonrpc; charset=utf-8",
            "Content-Type: application/vscode-jsonrpc;charset=utf8",
            "Content-Type: x; y=z ; charset=utf-8 ; charset=no",
            "X-Other: 1",
        ];
        let bad = [
            "Content-Type: application/vscode-jsonrpc",
            "Content-Type: charset=utf-8",
            "Content-Type: a; charset=latin1; charset=utf-8",
            "Content-Type: a; Charset=utf-8",
            "Content-Type: a; charset= utf-8",
            "Content-Type: a; charset=utf-8;",
            "Content-Type:",
            "X@Y: 1",
            "no colon",
            "X: \x01",
            "X: \t a b \t",
            "é: 1",
            "X: é",
        ];
        headers.push(if good || rng.chance(1, 2) { rng.pick(&ok) } else { rng.pick(&bad) }.to_string());
    }
    if !good && rng.chance(1, 10) {
        headers.push("Content-Length: 2".into());
    }
    if rng.chance(1, 2) {
        headers.reverse();
    }
    let mut bytes: Vec<u8> = headers.iter().flat_map(|h| format!("{h}{eol}").into_bytes()).collect();
    bytes.extend(eol.bytes());
    bytes.extend(body.bytes());
    bytes
}

/// The specification reads whole numbers and no unicode escapes.
fn in_scope(s: &[u8]) -> bool {
    let digits = |c: u8| c.is_ascii_digit();
    s.windows(2).all(|w| {
        !(digits(w[0]) && matches!(w[1], b'.' | b'e' | b'E' | b'-' | b'+'))
            && !(w[0] == b'-' && digits(w[1]))
            && w != b"\\u"
            && w != [0xC2, 0xA0]
            && w != [0xC2, 0x85]
    }) && s.windows(3).all(|w| !(w[0] == 0xE2 || w[0] == 0xE1) || w[1] < 0x80)
        && !s.windows(30).any(|w| w.iter().all(|c| digits(*c)))
}

/// Every byte received and every answer, for a stream in the given chunks.
fn record(stream: &[u8], cuts: &[usize]) -> Vec<Value> {
    let mut codec = LanguageServerCodec::<Canon>::default();
    let mut buf = BytesMut::new();
    let mut events = vec![];
    let mut from = 0;
    for &to in cuts {
        buf.extend_from_slice(&stream[from..to]);
        events.push(json!({"op": "receive", "bytes": jbytes(&stream[from..to])}));
        from = to;
        for _ in 0..200 {
            let before = buf.len();
            let got = guarded(|| codec.decode(&mut buf));
            let (kind, err, msg) = match &got {
                Err(_) => ("panic", "", vec![]),
                Ok(Ok(None)) => ("none", "", vec![]),
                Ok(Ok(Some(Canon(m)))) => ("msg", "", m.clone()),
                Ok(Err(e)) => ("err", err_kind(e), vec![]),
            };
            events.push(json!({"op": "ask", "kind": kind, "err": err, "msg": jbytes(&msg), "left": buf.len()}));
            if kind == "panic" {
                return events;
            }
            if kind == "none" || (kind == "err" && buf.len() == before) {
                break;
            }
        }
    }
    events
}

fn trace(n: usize, wild: bool) {
    let mut rng = Rng::from_env(if wild { 0xC0DE } else { 0xC0DF });
    let mut done = 0;
    while done < n {
        let mut stream = vec![];
        for _ in 0..rng.range(1, 4) {
            let good = !wild || rng.chance(1, 2);
            stream.extend(frame(&mut rng, good));
            if wild && rng.chance(1, 5) {
                stream.extend(rng.pick(&[&b"foo"[..], b"{}", b"\r\n", b"A: b\r\n\r\n", b"\xff", b"Content-Len", b" "]).to_vec());
            }
        }
        if wild && rng.chance(1, 3) {
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(stream.len());
                match rng.below(3) {
                    0 => drop(stream.remove(i)),
                    1 => stream.insert(i, *rng.pick(b"{}[]\",:a1\r\n 0\\\xff\xc3")),
                    _ => stream[i] = *rng.pick(b"{}[]\",:a1\r\n 0\\\xff\xc3"),
                }
                if stream.is_empty() {
                    break;
                }
            }
        }
        if !in_scope(&stream) || stream.len() > 400 {
            continue;
        }
        done += 1;
        vfcommon::at(&format!("{stream:?}"));
        let small = rng.chance(1, 3);
        let mut cuts = vec![];
        let mut from = 0;
        while from < stream.len() {
            from += if small { rng.range(1, 12) } else { rng.range(1, 200) }.min(stream.len() - from);
            cuts.push(from);
        }
        let events = record(&stream, &cuts);
        emit(&json!({"events": events}));
    }
}

/// Values through the encoder (one buffer for several), and back.
fn encode(n: usize) {
    let mut rng = Rng::from_env(0xE7C);
    for _ in 0..n {
        let mut codec = LanguageServerCodec::<Value>::default();
        let mut buf = BytesMut::new();
        let mut events = vec![];
        let mut written = 0;
        for _ in 0..rng.range(1, 4) {
            let mut text = document(&mut rng, 2);
            if rng.chance(1, 10) {
                // Lengths around powers of ten
                text = format!("\"{}\"", "x".repeat(*rng.pick(&[6, 7, 8, 9, 96, 97, 98, 99])));
            }
            let value: Value = serde_json::from_str(&text).unwrap();
            let body = serde_json::to_string(&value).unwrap();
            let ok = guarded(|| codec.encode(value, &mut buf).is_ok()).unwrap_or(false);
            events.push(json!({"op": "encode", "ok": ok, "body": jbytes(body.as_bytes()), "bytes": jbytes(&buf[written.min(buf.len())..])}));
            written = buf.len();
        }
        let mut reader = LanguageServerCodec::<Canon>::default();
        let bytes = buf.to_vec();
        events.push(json!({"op": "receive", "bytes": jbytes(&bytes)}));
        if !in_scope(&bytes) {
            continue;
        }
        for _ in 0..20 {
            let (kind, err, msg) = match guarded(|| reader.decode(&mut buf)) {
                Err(_) => ("panic", "", vec![]),
                Ok(Ok(None)) => ("none", "", vec![]),
                Ok(Ok(Some(Canon(m)))) => ("msg", "", m),
                Ok(Err(e)) => ("err", err_kind(&e), vec![]),
            };
            events.push(json!({"op": "ask", "kind": kind, "err": err, "msg": jbytes(&msg), "left": buf.len()}));
            if kind != "msg" {
                break;
            }
        }
        emit(&json!({"events": events}));
    }
}

/// So many that one frame of the stack for each is too much.
fn many() {
    vfcommon::at("100000 empty messages and one more");
    let stream = [&b"Content-Length: 0\r\n\r\n".repeat(100_000)[..], b"Content-Length: 1\r\n\r\n1"].concat();
    let n = stream.len();
    for size in [254, 255, 256, 4095, 4096, 8192, 32_767, 65_535, 65_536, 70_000, 1_000_000] {
        // How long a message is makes no difference either
        let body = format!("\"{}\"", "é".repeat(size / 2 - 1) + if size % 2 == 0 { "" } else { "x" }).into_bytes();
        let stream = [format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes(), &body, b"Content-Length: 1\r\n\r\n1"].concat();
        let n = stream.len();
        let msgs = [(body.clone(), n - 22), (b"1".to_vec(), n)];
        for cuts in [vec![], vec![10], vec![n - 24], vec![n - 23], vec![n - 22], vec![n / 2], (1..n / 1000).map(|k| k * 1000).collect()] {
            if let Err(e) = check(&stream, &msgs, true, &cuts, false) {
                emit(&json!({"length": body.len(), "cuts": cuts.len(), "got": e.to_string().chars().take(300).collect::<String>()}));
                break;
            }
        }
        let mut buf = BytesMut::new();
        let value: Value = serde_json::from_slice(&body).unwrap();
        let ok = LanguageServerCodec::<Value>::default().encode(value, &mut buf).is_ok();
        if !ok || buf[..] != stream[..n - 22] {
            emit(&json!({"length": body.len(), "encoded": buf.len(), "expected": n - 22}));
        }
    }
    if let Err(e) = check(&stream, &[(b"1".to_vec(), n)], true, &[], true) {
        emit(&json!({"empties": 100_000, "got": e}));
    }
}

fn main() {
    vfcommon::init(60);
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "replay" => replay(&args[2]),
        "trace" => trace(args[2].parse().unwrap(), false),
        "trace-wild" => trace(args[2].parse().unwrap(), true),
        "many" => many(),
        "encode" => encode(args[2].parse().unwrap()),
        other => panic!("unknown mode {other}"),
    }
}
