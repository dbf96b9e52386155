mod comp;
mod dump;
mod forms;
mod fsx;
mod wire;
use miette::Diagnostic;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

pub fn diag(d: &dyn Diagnostic) -> Value {
    let labels: Vec<Value> = d
        .labels()
        .into_iter()
        .flatten()
        .map(|l| json!([l.offset(), l.offset() + l.len()]))
        .collect();
    json!({ "msg": d.to_string(), "spans": labels, "help": d.help().map(|h| h.to_string()) })
}

fn parse_case(name: &str, src: &str) -> Value {
    match protox_parse::parse(name, src) {
        Ok(fd) => json!({"ok": true, "fd": dump::file(&fd)}),
        Err(err) => {
            let mut errs = vec![diag(&err)];
            if let Some(rel) = err.related() {
                errs.extend(rel.map(diag));
            }
            json!({
                "ok": false,
                "file": err.file(),
                "span": err.span().map(|s| json!([s.start, s.end])),
                "debug": format!("{:?}", err),
                // what a report would quote
                "quoted": std::iter::once(&err as &dyn Diagnostic).chain(err.related().into_iter().flatten()).take(30).all(|d| {
                    d.labels().into_iter().flatten().all(|l| {
                        let (a, b) = (l.offset(), l.offset() + l.len());
                        match d.source_code().or(err.source_code()).map(|s| s.read_span(l.inner(), 0, 0)) {
                            Some(Ok(c)) => c.name() == Some(name) && src.as_bytes().get(a..b).is_some_and(|w| c.data().starts_with(w) || w.is_empty()),
                            _ => false,
                        }
                    })
                }),
                "errs": errs,
            })
        }
    }
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("bad case json");
        let res = std::panic::catch_unwind(|| match mode.as_str() {
            "parse" => parse_case(
                case["name"].as_str().unwrap_or("t.proto"),
                case["src"].as_str().expect("src"),
            ),
            // the same text three times: on this thread twice and once on a thread of its own
            "parse3" => {
                let name = case["name"].as_str().unwrap_or("t.proto").to_owned();
                let src = case["src"].as_str().expect("src").to_owned();
                let a = parse_case(&name, &src);
                let b = parse_case(&name, &src);
                let c = std::thread::spawn(move || parse_case(&name, &src)).join().unwrap_or_else(|_| json!({"panic": "on a new thread"}));
                let mut r = a.clone();
                r["same"] = (a == b && a == c).into();
                r
            }
            "hist" => comp::hist(&case),
            "chain" => comp::chain(&case),
            "paths" => fsx::paths(&case),
            "wire" => wire::wire(&case),
            "lib" => wire::lib(&case),
            "forms" => forms::forms(&case),
            "disk" => fsx::disk(&case),
            "size" => fsx::size(&case),
            _ => panic!("unknown mode"),
        });
        let mut res = res.unwrap_or_else(|e| {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({ "panic": msg })
        });
        res["id"] = case["id"].clone();
        writeln!(out, "{}", res).unwrap();
    }
}
