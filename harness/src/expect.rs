//! X03: what an error message says it expected.
use crate::checks::{Case, Mon, Verdict};
use crate::lex::{self, K};
use crate::lib_api::*;
use crate::refparse::{self, Lang, EK};

/// the tokens that stand for what a message names
pub const KINDS: [(&str, &str); 6] = [
    ("Name", "zz"),
    ("IntValue", "1"),
    ("FloatValue", "1.5"),
    ("StringValue", "\"s\""),
    ("BlockString", "\"\"\"s\"\"\""),
    ("end of input", ""),
];

/// the items of the "Expected" line that follows what was not expected
pub fn expected(msg: &str, named: &str) -> Option<Vec<String>> {
    let from = msg.find(named)? + named.len();
    let line = msg[from..].lines().find_map(|l| l.strip_prefix("Expected "))?;
    let mut v = Vec::new();
    let (most, last) = match line.rsplit_once(" or ") {
        Some((a, b)) => (a, Some(b)),
        None => (line, None),
    };
    v.extend(most.split(", ").map(|s| s.to_string()));
    v.extend(last.map(|s| s.to_string()));
    Some(v)
}

/// can this token come after the text before token i?
fn viable(lang: Lang, text: &str, at: usize, i: usize, x: &str) -> bool {
    let t = format!("{} {}", &text[..at], x);
    let lx = lex::lex(&t);
    match refparse::document(&lx, lang) {
        Ok(_) => true,
        Err(e) => x != "" && e.tok > i || e.kind == EK::Decode || e.kind == EK::Semantic,
    }
}

fn judge(c: &Case, lx: &lex::Lexed, want: refparse::PErr, msg: &str, m: &mut Mon) -> Verdict {
    if want.kind != EK::Syntax || lx.open_comment {
        m.see("other errors");
        if msg.lines().filter(|l| !l.trim().is_empty()).count() < 2 {
            return Err(format!("the error says nothing but where it is: {}", msg));
        }
        return Ok(());
    }
    let t = lx.toks[want.tok];
    let named = if t.k == K::Eof {
        "Unexpected end of input\n".to_string()
    } else {
        format!("Unexpected `{}[{}]`\n", lx.text(want.tok), crate::checks::kind_name(t.k))
    };
    if !msg.contains(&named) {
        return Err(format!("the error does not say {:?}: {}", named, msg));
    }
    let Some(items) = expected(msg, &named) else {
        return Err(format!("the error names nothing that is expected: {}", msg));
    };
    m.nontrivial = true;
    m.add("expected tokens named", items.len());
    for x in &items {
        m.add(
            match KINDS.iter().find(|k| k.0 == x) {
                Some(k) => k.0,
                None => "keywords and punctuators named",
            },
            1,
        );
    }
    let fits = items.iter().any(|x| {
        let tok = KINDS.iter().find(|k| k.0 == x).map_or(x.as_str(), |k| k.1);
        viable(c.lang, &c.text, t.start, want.tok, tok)
    });
    if !fits {
        return Err(format!("nothing the error expects can come there: {}", msg));
    }
    Ok(())
}

pub fn x03(c: &Case, m: &mut Mon) -> Verdict {
    let lx = lex::lex(&c.text);
    let (Err(want), Err(msg)) = (refparse::document(&lx, c.lang), parse::<&str>(c.lang, &c.text).map(|_| ())) else {
        m.see("not rejected");
        return Ok(());
    };
    judge(c, &lx, want, &msg, m)?;
    if c.lang == Lang::Query {
        if let (Err(w), Err(msg)) = (
            refparse::first_definition(&lx).map(|_| ()),
            consume::<&str>(&c.text).map(|_| ()),
        ) {
            m.see("errors of consume_definition");
            judge(c, &lx, w, &msg, m)?;
        }
    }
    Ok(())
}

/// what is wrong with the text that is no token, in pieces the message must hold
fn lexical(piece: &str, text: &str) -> (&'static str, Vec<String>, &'static str) {
    let c = piece.chars().next().unwrap_or(' ');
    match c {
        '.' => ("bare dots", vec!["dot".into()], ""),
        '-' | '0'..='9' => {
            let float = piece.contains(['.', 'e', 'E']);
            (
                if float { "bad floats" } else { "bad integers" },
                vec![if float { "float".into() } else { "integer".into() }, format!("{:?}", piece)],
                "",
            )
        }
        '"' if text.starts_with("\"\"\"") => ("open block strings", vec!["block string".into(), "unterminated".into()], ""),
        '"' => ("open strings", vec!["string".into(), "unterminated".into()], "block"),
        _ => ("characters", vec!["character".into(), format!("{:?}", c)], ""),
    }
}

/// what is wrong inside a token
fn content(tok: &str) -> (&'static str, Vec<String>) {
    if tok.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
        return ("bad locations", vec!["directive location".into()]);
    }
    if !tok.starts_with('"') {
        let small = tok.starts_with('-');
        return ("integers out of range", vec![if small { "too small".into() } else { "too large".into() }]);
    }
    let b: Vec<char> = tok[1..tok.len() - 1].chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] != '\\' {
            i += 1;
            continue;
        }
        let e = b.get(i + 1).copied().unwrap_or('\\');
        i += 2;
        match e {
            '"' | '\\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' => {}
            'u' => {
                let four: String = b[i..b.len().min(i + 4)].iter().collect();
                i += 4;
                if i > b.len() {
                    return ("short \\u escapes", vec!["4 characters".into(), format!("'{}'", four)]);
                }
                let hex = four.chars().all(|c| c.is_ascii_hexdigit());
                if !hex || u32::from_str_radix(&four, 16).ok().and_then(char::from_u32).is_none() {
                    return ("bad \\u escapes", vec!["code point".into(), four]);
                }
            }
            c => return ("bad escapes", vec!["escape".into(), format!("{:?}", c)]),
        }
    }
    ("unknown", vec![])
}

fn holds(what: &'static str, parts: &[String], not: &str, msg: &str, m: &mut Mon) -> Verdict {
    m.see(what);
    m.nontrivial = true;
    // the line that says so, not one of the others
    let ok = parts.is_empty()
        || msg.contains(parts.last().unwrap().as_str()) && parts.iter().all(|p| msg.contains(p.as_str())) && (not.is_empty() || !msg.contains(not));
    if !ok {
        return Err(format!("the error does not say what is wrong ({}: {:?}): {}", what, parts, msg));
    }
    Ok(())
}

fn describe(lx: &lex::Lexed, want: refparse::PErr, lang: Lang, msg: &str, m: &mut Mon) -> Verdict {
    let first = if lang == Lang::Query { "query" } else { "schema" };
    if !msg.starts_with(first) {
        return Err(format!("the error is not called one of a {}: {}", first, msg));
    }
    // before what is quoted
    let head = msg.split("Unexpected").next().unwrap_or("").split('\n').next().unwrap_or("");
    let other = if lang == Lang::Query { "schema" } else { "query" };
    if head.contains(other) {
        return Err(format!("the error is called one of a {}: {}", other, msg));
    }
    let t = lx.toks[want.tok];
    match want.kind {
        EK::Lex => {
            let (what, parts, not) = lexical(lx.text(want.tok), &lx.src[t.start..]);
            holds(what, &parts, not, msg, m)
        }
        EK::Decode => {
            let (what, parts) = content(lx.text(want.tok));
            holds(what, &parts, "", msg, m)
        }
        EK::Depth => holds("too deep", &["ecursion limit".to_string()], "", msg, m),
        EK::Semantic => {
            if lx.text(want.tok) == "schema" {
                schema_block(lx, want.tok, msg, m)
            } else {
                let k = match lx.text(want.tok) {
                    "type" => "object",
                    k => k,
                };
                let low = msg.to_lowercase();
                holds("empty extensions", &["extension".to_string(), k.to_string()], "", &low, m)?;
                // the words before "extension", not what such a one may contain
                let named = low.split("extension").next().unwrap_or("");
                let named: Vec<&str> = named.split(|c: char| !c.is_ascii_alphabetic()).filter(|w| !w.is_empty()).rev().take(3).collect();
                let kinds = ["scalar", "object", "interface", "union", "enum", "input"];
                if kinds.iter().any(|x| named.contains(x) && *x != k && !(k == "input" && *x == "object")) {
                    return Err(format!("the error does not say what is wrong (an empty extension with `{}`): {}", lx.text(want.tok), msg));
                }
                Ok(())
            }
        }
        EK::Syntax => {
            m.see("other errors");
            Ok(())
        }
    }
}

/// each root operation too many, and each that does not exist, is named
fn schema_block(lx: &lex::Lexed, at: usize, msg: &str, m: &mut Mon) -> Verdict {
    let (mut i, mut depth) = (at + 1, 0usize);
    // past the directives: the first brace that no parenthesis holds
    while i < lx.n() {
        match lx.text(i) {
            "(" => depth += 1,
            ")" => depth -= 1,
            "{" if depth == 0 => break,
            _ => {}
        }
        i += 1;
    }
    i += 1;
    let mut seen: Vec<&str> = Vec::new();
    while i + 2 < lx.toks.len() && lx.text(i) != "}" {
        let op = lx.text(i);
        if !["query", "mutation", "subscription"].contains(&op) {
            holds("unknown root operations", &[format!("`{}[Name]`", op)], "", msg, m)?;
        } else if seen.contains(&op) {
            holds("repeated root operations", &["duplicate".to_string(), format!("`{}`", op)], "", msg, m)?;
        }
        seen.push(op);
        i += 3;
    }
    Ok(())
}

pub fn x04(c: &Case, m: &mut Mon) -> Verdict {
    let lx = lex::lex(&c.text);
    if lx.open_comment && !lx.ok() {
        return Ok(());
    }
    let mut said = None;
    if let (Err(want), Err(msg)) = (refparse::document(&lx, c.lang), parse::<&str>(c.lang, &c.text).map(|_| ())) {
        describe(&lx, want, c.lang, &msg, m)?;
        said = Some((want, msg));
    } else {
        m.see("not rejected");
    }
    if c.lang == Lang::Query {
        if let (Err(w), Err(msg)) = (
            refparse::first_definition(&lx).map(|_| ()),
            consume::<&str>(&c.text).map(|_| ()),
        ) {
            describe(&lx, w, Lang::Query, &msg, m)?;
            m.see("errors of consume_definition");
        }
    }
    let (depth, under) = crate::checks::nesting(&lx);
    if !lx.ok() && depth <= 50 && !under {
        if let Err(msg) = minify(&c.text) {
            m.see("errors of minify_query");
            if !msg.starts_with("query") {
                return Err(format!("the error is not called one of a query: {}", msg));
            }
            let t = lx.toks[lx.n()];
            let (what, parts, not) = lexical(lx.text(lx.n()), &c.text[t.start..]);
            holds(what, &parts, not, &msg, m)?;
            // the same words wherever the piece is met
            if let (Some((w, said)), Some((_, words))) = (&said, msg.split_once("error: ")) {
                if w.kind == EK::Lex && !said.contains(words) {
                    return Err(format!("minify_query says {:?} where the parser says {:?}", msg, said));
                }
            }
        }
    }
    Ok(())
}
