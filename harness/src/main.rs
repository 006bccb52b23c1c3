//! Conformance driver: executes cases against the real noodle crate and records what it did.
//! One JSON case per stdin line, one JSON record per stdout line (flushed, in order).
use noodle::{parser, QueryEvaluator, QueryResponse, Word};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn chars(w: &Word) -> Vec<usize> {
    w.chars.iter().map(|c| c.as_index()).collect()
}

fn word_json(w: &Word) -> Value {
    json!({"t": &*w.text, "r": w.tranche, "s": w.score, "c": chars(w)})
}

fn words_of(case: &Value) -> Vec<Word> {
    case["words"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|w| {
                    Word::new(
                        w[0].as_str().unwrap(),
                        w[1].as_u64().unwrap() as u8,
                        w[2].as_u64().unwrap() as u32,
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

/// The deadline to use for a call, from its name in the case's schedule.
fn deadline(kind: &str) -> Option<Instant> {
    match kind {
        "n" => None,
        "p" => Some(Instant::now() - Duration::from_millis(5)),
        k => Some(Instant::now() + Duration::from_micros(k.parse().unwrap())),
    }
}

fn run_eval(case: &Value) -> Value {
    let words = words_of(case);
    let ast = match parser::QueryAst::new_from_str(case["query"].as_str().unwrap()) {
        Ok(a) => a,
        Err(e) => return json!({"reject": e.to_string()}),
    };
    let mut ev = QueryEvaluator::from_ast(&ast, &words);
    if let Some(v) = case.get("setdepth") {
        ev.set_search_depth_limit(v.as_u64().unwrap() as usize);
    }
    if let Some(v) = case.get("setlimit") {
        ev.set_results_limit(v.as_u64().map(|x| x as usize));
    }
    let sched: Vec<String> = case["sched"]
        .as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .unwrap_or_else(|| vec!["n".to_string()]);
    // does the last one stay, or does the schedule begin again?
    let hold = case["hold"].as_bool().unwrap_or(false);
    let cap = case["cap"].as_u64().unwrap_or(100_000) as usize;
    let want_progress = case["progress"].as_bool().unwrap_or(false);
    let mut resp: Vec<Value> = vec![];
    if want_progress {
        resp.push(json!({"k": "P", "p": [ev.progress(), ev.progress()]}));
    }
    // a limit on the number of timeouts, for searches which would take too long
    let max_timeouts = case["maxtimeouts"].as_u64().unwrap_or(u64::MAX) as usize;
    let mut i = 0;
    let mut timeouts = 0usize;
    let mut capped = false;
    loop {
        if resp.len() >= cap || timeouts >= max_timeouts {
            capped = true;
            break;
        }
        let kind = &sched[if hold { i.min(sched.len() - 1) } else { i % sched.len() }];
        i += 1;
        let r = ev.next_within_deadline(deadline(kind));
        match r {
            QueryResponse::Timeout => {
                timeouts += 1;
                // consecutive timeouts are one stutter; keep the record short
                if resp.last().map(|v| v["k"] == "T").unwrap_or(false) {
                    let l = resp.last_mut().unwrap();
                    l["n"] = json!(l["n"].as_u64().unwrap() + 1);
                } else {
                    resp.push(json!({"k": "T", "n": 1}));
                }
            }
            QueryResponse::Logs(_) => {
                resp.push(json!({"k": "L"}));
            }
            QueryResponse::Match(p) => {
                resp.push(json!({"k": "M", "w": p.iter().map(word_json).collect::<Vec<_>>()}));
            }
            QueryResponse::Complete(m) => {
                resp.push(json!({"k": "C", "m": m}));
            }
        }
        if want_progress {
            // asked for twice; of a long run of timeouts the first reports, and the last
            let l = resp.last_mut().unwrap();
            if l["p"].is_null() {
                l["p"] = json!([]);
            }
            let a = l["p"].as_array_mut().unwrap();
            if a.len() >= 60 {
                a.pop();
                a.pop();
            }
            a.push(json!(ev.progress()));
            a.push(json!(ev.progress()));
        }
        // the kind of deadline the response was given under
        let l = resp.last_mut().unwrap();
        l["d"] = json!(if kind == "n" || kind == "p" { kind.as_str() } else { "t" });
        if l["k"] == "C" {
            break;
        }
    }
    // calls made after completion
    let mut after = vec![];
    if !capped {
        for _ in 0..case["after"].as_u64().unwrap_or(1) {
            let r = ev.next_within_deadline(None);
            after.push(match r {
                QueryResponse::Timeout => "T",
                QueryResponse::Logs(_) => "L",
                QueryResponse::Match(_) => "M",
                QueryResponse::Complete(_) => "C",
            });
        }
        let nx = ev.next();
        after.push(if nx.is_none() { "N" } else { "S" });
    }
    let end = if want_progress { json!([ev.progress()]) } else { json!([]) };
    json!({"end": end, "resp": resp, "after": after, "timeouts": timeouts, "capped": capped, "nexpr": ast.expressions.len()})
}

/// Evaluation through the `Iterator` interface
fn run_iter(case: &Value) -> Value {
    let words = words_of(case);
    let ast = match parser::QueryAst::new_from_str(case["query"].as_str().unwrap()) {
        Ok(a) => a,
        Err(e) => return json!({"reject": e.to_string()}),
    };
    let mut ev = QueryEvaluator::from_ast(&ast, &words);
    if let Some(v) = case.get("setdepth") {
        ev.set_search_depth_limit(v.as_u64().unwrap() as usize);
    }
    if let Some(v) = case.get("setlimit") {
        ev.set_results_limit(v.as_u64().map(|x| x as usize));
    }
    let mut resp: Vec<Value> = vec![];
    for r in ev {
        resp.push(match r {
            QueryResponse::Timeout => json!({"k": "T", "n": 1}),
            QueryResponse::Logs(_) => json!({"k": "L"}),
            QueryResponse::Match(p) => {
                json!({"k": "M", "w": p.iter().map(word_json).collect::<Vec<_>>()})
            }
            QueryResponse::Complete(m) => json!({"k": "C", "m": m}),
        });
    }
    json!({"resp": resp, "after": ["C", "N"], "timeouts": 0, "capped": false, "nexpr": ast.expressions.len()})
}

fn run_parse(case: &Value) -> Value {
    match parser::QueryAst::new_from_str(case["query"].as_str().unwrap()) {
        Ok(a) => {
            let o = &a.options;
            let exprs: Vec<Value> = a
                .expressions
                .iter()
                .map(|e| {
                    json!({
                        "text": e.to_string(),
                        "wb": e.options.explicit_word_boundaries == Some(true),
                        "pu": e.options.explicit_punctuation == Some(true),
                        "fz": e.options.fuzz.unwrap_or(0),
                    })
                })
                .collect();
            json!({"ok": {
                "n": a.expressions.len(),
                "exprs": exprs,
                "words": number(o.max_words),
                "limit": number(o.results_limit),
                "hasdict": o.dictionary.is_some(),
                "dict": o.dictionary.clone().unwrap_or_default(),
                "quiet": o.quiet == Some(true),
                "haswl": o.wordlist.is_some(),
                "wl": o.wordlist.as_ref().map(|w| w.iter().map(word_json).collect::<Vec<_>>()).unwrap_or_default(),
            }})
        }
        Err(e) => {
            let line = match e.line_col {
                pest::error::LineColLocation::Pos((l, _)) => l,
                pest::error::LineColLocation::Span((l, _), _) => l,
            };
            json!({"reject": e.to_string(), "line": line})
        }
    }
}

/// Words made of texts
fn run_norm(case: &Value) -> Value {
    let (r, s) = (case["r"].as_u64().unwrap(), case["s"].as_u64().unwrap());
    let got: Vec<Value> = case["texts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| word_json(&Word::new(t.as_str().unwrap(), r as u8, s as u32)))
        .collect();
    json!({ "got": got })
}

/// A word list file; "zst": compress it first, the way it says
fn run_load(case: &Value) -> Value {
    let path = case["path"].as_str().unwrap();
    if let Some(from) = case["zst"].as_str() {
        let mut data = zstd::stream::encode_all(std::fs::File::open(from).unwrap(), 3).unwrap();
        if case["two_frames"] == true {
            let all = std::fs::read(from).unwrap();
            let (a, b) = all.split_at(all.len() / 2);
            data = zstd::stream::encode_all(a, 1).unwrap();
            data.extend(zstd::stream::encode_all(b, 19).unwrap());
        }
        if let Some(n) = case["cut"].as_u64() {
            data.truncate(data.len() - (n as usize).min(data.len() - 1));
        }
        if let Some(n) = case["flip"].as_u64() {
            let n = n as usize % data.len().min(4);
            data[n] ^= 0x10;
        }
        std::fs::write(path, data).unwrap();
    }
    match noodle::load_wordlist(path) {
        Ok(ws) => json!({"words": ws.iter().map(word_json).collect::<Vec<_>>()}),
        Err(()) => json!({"reject": "load"}),
    }
}

/// A single expression, as it is shown
fn run_expr(case: &Value) -> Value {
    match parser::ExpressionAst::new_from_str(case["query"].as_str().unwrap()) {
        Ok(e) => json!({"got": {
            "text": e.to_string(),
            "wb": e.options.explicit_word_boundaries == Some(true),
            "pu": e.options.explicit_punctuation == Some(true),
            "fz": e.options.fuzz.unwrap_or(0),
        }}),
        Err(e) => json!({"reject": e.to_string()}),
    }
}

/// -1: none, -2: beyond what TLC can represent
fn number(n: Option<usize>) -> i64 {
    n.map(|x| if x > 999_999_999 { -2 } else { x as i64 }).unwrap_or(-1)
}

fn main() {
    if std::env::var("VERIF_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let stdin = std::io::stdin();
    let out = std::fs::File::create(std::env::args().nth(1).expect("output path")).unwrap();
    let mut out = std::io::BufWriter::new(out);
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap();
        let t0 = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| match case["op"].as_str().unwrap() {
            "eval" => run_eval(&case),
            "iter" => run_iter(&case),
            "parse" => run_parse(&case),
            "norm" => run_norm(&case),
            "load" => run_load(&case),
            "expr" => run_expr(&case),
            o => panic!("unknown op {}", o),
        }));
        let mut rec = match r {
            Ok(v) => v,
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into());
                json!({"panic": msg})
            }
        };
        rec["id"] = case["id"].clone();
        rec["us"] = json!(t0.elapsed().as_micros() as u64);
        writeln!(out, "{}", rec).unwrap();
        out.flush().unwrap();
    }
}
