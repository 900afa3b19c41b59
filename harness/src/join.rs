//! J01: documents that are put together.
use crate::checks::{Case, Mon, Verdict};
use crate::ev::Ev;
use crate::history::SEPARATOR;
use crate::lex::{self, K};
use crate::lib_api::*;
use crate::refparse::Lang;

/// the line and column an error gives, and the rest of it
fn place(msg: &str) -> Option<(usize, usize, &str)> {
    let i = msg.find("error at ")? + 9;
    let (at, rest) = msg[i..].split_once('\n')?;
    let (l, c) = at.split_once(':')?;
    Some((l.parse().ok()?, c.parse().ok()?, rest))
}

fn moved(t: &[Ev], lines: usize) -> Vec<Ev> {
    t.iter()
        .map(|e| match e {
            Ev::P(l, c) => Ev::P(l + lines, *c),
            e => e.clone(),
        })
        .collect()
}

pub fn j01(c: &Case, m: &mut Mon) -> Verdict {
    let parts: Vec<&str> = c.text.split(SEPARATOR).collect();
    if parts.len() < 2 {
        return Ok(());
    }
    let sep = ["\n", "\r\n", "\n\n", "\n \t", "\n#\n", "\n,\u{feff}"][(c.p % 6) as usize];
    let mut text = parts[0].to_string();
    for p in &parts[1..] {
        text += sep;
        text += p;
    }
    // whether these are line ends is not asked here: the library says how many
    // lines a part alone has
    let lone_cr = lex::lex(&text).lone_cr;
    if lone_cr {
        m.see("texts with lone CRs");
    }
    let got = parse::<&str>(c.lang, &text);
    let (width, multi) = ((c.p >> 8) as usize % 5, c.p >> 16 & 1 == 1);
    // what comes before, in lines, and what it means
    let (mut line, mut whole, mut print, mut pretty, mut mini) = (0, Vec::new(), String::new(), String::new(), Some(String::new()));
    let mut count = 0;
    for (i, p) in parts.iter().enumerate() {
        let lx = lex::lex(p);
        // the first line of a later part begins after the separator's last line end
        let pad: usize = if i == 0 { 0 } else { sep.rsplit('\n').next().unwrap().chars().map(|c| match c { '\t' => 8, '\u{feff}' => 0, _ => 1 }).sum() };
        match parse::<&str>(c.lang, p) {
            // locations may still follow, so the next part is one
            Ok(_) if i + 1 < parts.len() && c.lang == Lang::Schema && lx.n() > 0 && lx.text(lx.n() - 1) == "on" => {
                m.see("parts that may go on, left out");
                return Ok(());
            }
            Ok(d) => {
                let mut t = moved(&d.trace(), line);
                if pad > 0 {
                    for e in &mut t {
                        if let Ev::P(l, col) = e {
                            if *l == line + 1 {
                                *col += pad;
                            }
                        }
                    }
                }
                whole.extend(t);
                count += d.len();
                if !print.is_empty() {
                    print.push('\n');
                    pretty.push('\n');
                }
                print += &d.display();
                pretty += &d.format(width, multi);
                mini = match (mini, minify(p)) {
                    (Some(a), Ok(b)) => {
                        let gap = matches!(lex::lex(&a).toks.iter().rev().nth(1), Some(t) if t.k != K::Punct)
                            && matches!(lex::lex(&b).toks.first(), Some(t) if t.k != K::Punct);
                        Some(a + if gap { " " } else { "" } + &b)
                    }
                    _ => None,
                };
            }
            Err(e) => {
                let Some((l, col, rest)) = place(&e) else {
                    return Err(format!("the error says no place: {}", e));
                };
                let t0 = lx.toks[0];
                let last = lx.toks[lx.n()];
                // an error at the end may go away, one at the start be another:
                // what was before may go on, or is looked at with it
                let at_end = last.k == K::Eof && (l, col) == (last.line, last.col) || rest.contains("end of input");
                let at_start = (l, col) == (t0.line, t0.col) && i > 0;
                let open = last.k == K::Bad && lx.text(lx.n()).starts_with('"');
                let whole_part = !rest.contains("Unexpected") || rest.contains("duplicate") || rest.starts_with("Expected");
                if lx.n() == 0 || at_end || at_start || open || whole_part || lx.open_comment {
                    m.see("parts that may go on, left out");
                    return Ok(());
                }
                let Err(g) = &got else {
                    return Err(format!("part {} of {:?} is rejected, the whole is not: {}", i + 1, text, e));
                };
                let want = (l + line, if l == 1 { col + pad } else { col });
                match place(g) {
                    Some((a, b, r)) if (a, b) == want && r == rest => {
                        m.nontrivial = true;
                        m.see(if i == 0 { "errors that what follows does not change" } else { "errors that what comes before does not change" });
                        return Ok(());
                    }
                    _ => return Err(format!("the error of part {} is {}, expected at {}:{}, that of the whole {}", i + 1, e, want.0, want.1, g)),
                }
            }
        }
        // the lines up to the next part
        line += if lone_cr {
            match parse::<&str>(c.lang, &format!("{}{}%", p, sep)) {
                Err(e) => place(&e).map_or(1, |p| p.0) - 1,
                Ok(_) => return Err(format!("{:?} is accepted with a percent sign after it", p)),
            }
        } else {
            p.matches('\n').count() + sep.matches('\n').count()
        };
    }
    let d = match &got {
        Ok(d) => d,
        Err(e) => return Err(format!("{} documents are accepted, but not one after the other: {}", parts.len(), e)),
    };
    m.nontrivial = true;
    m.see("documents joined");
    m.add("definitions in joined documents", count);
    let t = d.trace();
    if t != whole {
        let k = t.iter().zip(&whole).position(|(a, b)| a != b).unwrap_or(t.len().min(whole.len()));
        return Err(format!("joined documents differ from their parts at {}: expected {:?} got {:?}", k, whole.get(k), t.get(k)));
    }
    if d.len() != count {
        return Err(format!("{} definitions, not {}", d.len(), count));
    }
    if d.display() != print || d.format(width, multi) != pretty {
        return Err(format!("joined documents are printed as {:?}, their parts as {:?}", d.display(), print));
    }
    if let (Some(want), Ok(got)) = (mini, minify(&text)) {
        if got != want {
            return Err(format!("joined documents are minified to {:?}, their parts to {:?}", got, want));
        }
    }
    Ok(())
}
