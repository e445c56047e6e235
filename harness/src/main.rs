//! Drives the public API of ti_tools.  One JSON request per line of standard input, one JSON answer per line.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::catch_unwind;
use std::path::PathBuf;
use ti_tools::calculator::models::{Model, ModelDetails};
use ti_tools::calculator::program::Program;
use ti_tools::calculator::tokens::{load_tokens, OsVersion};
use ti_tools::calculator::{DisplayMode, EncodeMode};

fn text(v: &Value) -> String {
    v.as_str().unwrap_or_default().to_string()
}

fn version(v: &Value) -> OsVersion {
    OsVersion::new(Model::from_string(&text(&v[0])), text(&v[1]))
}

fn display(mode: &str) -> DisplayMode {
    match mode {
        "pretty" => DisplayMode::Pretty,
        "ti" => DisplayMode::TiAscii,
        _ => DisplayMode::Accessible,
    }
}

fn encode(mode: &str) -> EncodeMode {
    match mode {
        "min" => EncodeMode::Min,
        "max" => EncodeMode::Max,
        _ => EncodeMode::Smart,
    }
}

/// every token of a target: [key, ti, pretty, accessible], the key as it is written in the sheet
fn tokens(r: &Value) -> Value {
    match load_tokens(&version(&r["target"])) {
        Ok(map) => json!({"ok": true, "tokens": map.map.iter()
            .map(|(k, t)| json!([k, t.ti_ascii, t.display, t.accessible])).collect::<Vec<_>>()}),
        Err(_) => json!({"ok": false}),
    }
}

/// a target compared with others
fn compare(r: &Value) -> Value {
    let a = version(&r["a"]);
    let out: Vec<Value> = r["with"].as_array().unwrap().iter().map(|w| {
        let b = version(w);
        json!([a.cmp(&b) as i8, a.partial_cmp(&b).map(|o| o as i8).unwrap_or(9), a == b, a < b, a <= b, a > b, a >= b])
    }).collect();
    json!({"ok": true, "out": out})
}

fn load(r: &Value) -> Option<Program> {
    let path = PathBuf::from(text(&r["file"]));
    match text(&r["ext"]).as_str() {
        "txt" => Program::load_from_txt(path, &encode(&text(&r["enc"]))).ok(),
        "json" => Program::load_from_json(path).ok(),
        _ => Program::load_from_8xp(path, display(&text(&r["mode"]))).ok(),
    }
}

/// a program loaded once and edited in memory; the program after each edit; saved at points of the history
fn edit(r: &Value) -> Value {
    let mut p = match load(r) {
        Some(p) => p,
        None => return json!({"loaded": false}),
    };
    let first = serde_json::to_value(&p).unwrap();
    let mut steps = vec![];
    for op in r["ops"].as_array().unwrap() {
        let arg = text(&op[1]);
        let ok = match text(&op[0]).as_str() {
            "rename" => p.metadata.rename(arg).is_ok(),
            "comment" => p.header.comment(arg).is_ok(),
            "lock" => { p.metadata.lock(); true }
            "unlock" => { p.metadata.unlock(); true }
            "archive" => { p.metadata.archive(); true }
            "unarchive" => { p.metadata.unarchive(); true }
            "save" => p.save_to(&PathBuf::from(arg)).is_ok(),
            _ => panic!("unknown operation"),
        };
        steps.push(json!({"ok": ok, "program": serde_json::to_value(&p).unwrap()}));
    }
    json!({"loaded": true, "first": first, "steps": steps})
}

fn models(r: &Value) -> Value {
    let named: Vec<Value> = r["names"].as_array().unwrap().iter().map(|n| {
        let m = Model::from_string(&text(n));
        let d = ModelDetails::from_model(&m);
        json!({"name": m.to_string(), "order": m.model_order(), "details": serde_json::to_value(&d).unwrap()})
    }).collect();
    let bytes: Vec<Value> = r["files"].as_array().unwrap().iter().map(|f| {
        match ModelDetails::from_byte(f[0].as_u64().unwrap() as u8, &text(&f[1])) {
            Ok(d) => json!({"ok": true, "details": serde_json::to_value(&d).unwrap()}),
            Err(_) => json!({"ok": false}),
        }
    }).collect();
    json!({"ok": true, "named": named, "files": bytes})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out: Vec<u8> = vec![];
    for line in stdin.lock().lines() {
        let r: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let answer = catch_unwind(|| match text(&r["do"]).as_str() {
            "tokens" => tokens(&r),
            "compare" => compare(&r),
            "edit" => edit(&r),
            "models" => models(&r),
            _ => panic!("unknown request"),
        });
        let answer = answer.unwrap_or_else(|_| json!({"panic": true}));
        writeln!(out, "@{}", answer).unwrap();
    }
    // at the end, because the library prints too
    println!();
    std::io::stdout().write_all(&out).unwrap();
}
