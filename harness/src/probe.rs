//! Line server around the crate's own parser and formatter: one JSON request
//! per input line, one JSON answer per output line. A panic is an answer too.
use eucalypt::syntax::export::format::{format_source, needs_formatting, FormatterConfig};
use eucalypt::syntax::rowan::kind::{SyntaxElement, SyntaxNode};
use eucalypt::syntax::rowan::{parse_expr, parse_unit};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! range {
    ($x:expr) => {{
        let r = $x.text_range();
        (usize::from(r.start()), usize::from(r.end()))
    }};
}

/// Every node's children must tile the node's range, and every token's text
/// must be the source text at its range.
fn walk(node: &SyntaxNode, text: &str, bad: &mut Vec<String>, tokens: &mut Vec<Value>, n: &mut usize) {
    let (s, e) = range!(node);
    let mut at = s;
    let mut any = false;
    for child in node.children_with_tokens() {
        any = true;
        *n += 1;
        let (cs, ce) = range!(child);
        if cs != at {
            bad.push(format!("{:?} {}..{}: child starts at {} instead of {}", node.kind(), s, e, cs, at));
        }
        at = ce;
        match child {
            SyntaxElement::Node(c) => walk(&c, text, bad, tokens, n),
            SyntaxElement::Token(t) => {
                match text.get(cs..ce) {
                    Some(x) if x == t.text() => {}
                    other => bad.push(format!("token {:?} at {}..{} is {:?}, text has {:?}", t.kind(), cs, ce, t.text(), other)),
                }
                tokens.push(json!([format!("{:?}", t.kind()), t.text()]));
            }
        }
    }
    if any && at != e || !any && s != e {
        bad.push(format!("{:?} {}..{}: children end at {}", node.kind(), s, e, at));
    }
}

/// The tree without trivia and separating commas, and the comments in order.
fn shape(node: &SyntaxNode, out: &mut String, comments: &mut Vec<String>) {
    out.push_str(&format!("({:?}", node.kind()));
    for child in node.children_with_tokens() {
        match child {
            SyntaxElement::Node(c) => shape(&c, out, comments),
            SyntaxElement::Token(t) => match format!("{:?}", t.kind()).as_str() {
                "WHITESPACE" | "COMMA" => {}
                "COMMENT" => comments.push(t.text().trim_end().to_string()),
                k => out.push_str(&format!(" {} {:?}", k, t.text())),
            },
        }
    }
    out.push(')');
}

fn check(root: SyntaxNode, errs: Vec<String>, text: &str, want_tokens: bool) -> Value {
    let mut bad = vec![];
    let mut tokens = vec![];
    let mut n = 0;
    if root.text().to_string() != text {
        bad.push(format!("tree text differs: {:?}", root.text().to_string()));
    }
    walk(&root, text, &mut bad, &mut tokens, &mut n);
    let mut v = json!({"errors": errs, "bad": bad, "nodes": n});
    if want_tokens {
        v["tokens"] = Value::Array(tokens);
    }
    v
}

fn answer(req: &Value) -> Value {
    let text = req["text"].as_str().unwrap_or("");
    match req["op"].as_str().unwrap_or("") {
        "unit" => {
            let p = parse_unit(text);
            let q = parse_unit(text);
            let errs: Vec<String> = p.errors().iter().map(|e| format!("{e:?}")).collect();
            for e in p.errors() {
                let _ = format!("{e}");
            }
            let mut v = check(p.syntax_node(), errs, text, req["tokens"] == json!(true));
            if req["shape"] == json!(true) {
                let (mut o, mut c) = (String::new(), vec![]);
                shape(&p.syntax_node(), &mut o, &mut c);
                v["shape"] = json!(o);
                v["comments"] = json!(c);
            }
            if p != q {
                v["bad"].as_array_mut().unwrap().push(json!("two parses of one text differ"));
            }
            v
        }
        "expr" => {
            let p = parse_expr(text);
            let errs: Vec<String> = p.errors().iter().map(|e| format!("{e:?}")).collect();
            check(p.syntax_node(), errs, text, false)
        }
        "fmt" => {
            let cfg = FormatterConfig::new(
                req["width"].as_u64().unwrap_or(80) as usize,
                req["indent"].as_u64().unwrap_or(2) as usize,
                req["reformat"] == json!(true),
            );
            match format_source(text, &cfg) {
                Ok(out) => json!({"out": out, "needs": needs_formatting(text, &cfg).unwrap_or(true)}),
                Err(e) => json!({"err": e}),
            }
        }
        _ => json!({"err": "unknown op"}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let stdin = std::io::stdin();
        let mut out = std::io::stdout().lock();
        for line in stdin.lock().lines() {
            let Ok(line) = line else { break };
            let req: Value = match serde_json::from_str(&line) {
                Ok(v) => v,
                Err(e) => json!({"op": format!("bad request {e}")}),
            };
            let v = catch_unwind(AssertUnwindSafe(|| answer(&req))).unwrap_or_else(|p| {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                json!({"panic": m.unwrap_or_default()})
            });
            let _ = writeln!(out, "{v}");
            let _ = out.flush();
        }
    });
    t.unwrap().join().unwrap();
}
