//! G01: the same text through several text representations.
use crate::checks::{Case, Mon, Verdict};
use crate::conv::{NAMES, STATICS};
use crate::ev::{diff, short, Trace};
use crate::lib_api::*;
use crate::refparse::Lang;
use graphql_parser::query as q;
use std::borrow::{Borrow, Cow};
use std::sync::Arc;

pub struct Shared;
impl<'a> q::Text<'a> for Shared {
    type Value = Arc<str>;
}

/// a user's own type, borrowing, with its own idea of Debug
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Word<'a>(&'a str);
impl<'a> From<&'a str> for Word<'a> {
    fn from(s: &'a str) -> Self {
        Word(s)
    }
}
impl AsRef<str> for Word<'_> {
    fn as_ref(&self) -> &str {
        self.0
    }
}
impl Borrow<str> for Word<'_> {
    fn borrow(&self) -> &str {
        self.0
    }
}
impl std::fmt::Debug for Word<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("<word>")
    }
}
impl<'a> q::Text<'a> for Word<'a> {
    type Value = Word<'a>;
}

#[derive(PartialEq, Debug)]
struct View {
    verdict: Result<Trace, (String, String)>,
    prints: Vec<String>,
    consumed: Result<(Trace, usize), String>,
    names: Vec<(usize, usize)>,
}

fn view<'a, T: q::Text<'a>>(c: &Case, t: &'a str, statics: &mut Option<(u64, Option<String>)>) -> View {
    let mut prints = Vec::new();
    NAMES.with(|n| *n.borrow_mut() = Some(Vec::new()));
    STATICS.with(|s| *s.borrow_mut() = statics.take());
    let verdict = match lib(|| match c.lang {
        Lang::Query => graphql_parser::parse_query::<T>(t).map(Doc::Q).map_err(|e| (e.to_string(), format!("{:?}", e))),
        Lang::Schema => graphql_parser::parse_schema::<T>(t).map(Doc::S).map_err(|e| (e.to_string(), format!("{:?}", e))),
    }) {
        Ok(d) => {
            let t = d.trace();
            prints.push(d.format(2, false));
            prints.push(d.format(3, true));
            prints.push(d.display());
            Ok(t)
        }
        Err(e) => Err(e),
    };
    *statics = STATICS.with(|s| s.borrow_mut().take());
    let consumed = consume::<T>(t).map(|(d, rest)| {
        prints.push(lib(|| d.to_string()));
        (def_trace(&d), rest.len())
    });
    let names = NAMES.with(|n| n.borrow_mut().take()).unwrap_or_default();
    View {
        verdict,
        prints,
        consumed,
        names,
    }
}

pub fn g01(c: &Case, m: &mut Mon) -> Verdict {
    let t = c.text.as_str();
    let mut st = Some((0, None));
    let base = view::<String>(c, t, &mut st);
    m.nontrivial = t.len() > 1;
    if base.verdict.is_ok() {
        m.see("documents accepted");
    } else {
        m.see("texts rejected");
    }
    let mut one = |name: &'static str, v: View, borrows: bool| -> Verdict {
        m.see("views compared");
        m.add("names located", v.names.len());
        match (&base.verdict, &v.verdict) {
            (Ok(a), Ok(b)) => {
                if let Some(d) = diff(a, b, false) {
                    return Err(format!("String and {} give different ASTs: {}", name, d));
                }
            }
            (Err(a), Err(b)) => {
                if a != b {
                    return Err(format!("String and {} give different errors: {:?} and {:?}", name, a, b));
                }
            }
            (a, b) => {
                return Err(format!(
                    "String {} the text, {} {} it",
                    if a.is_ok() { "accepts" } else { "rejects" },
                    name,
                    if b.is_ok() { "accepts" } else { "rejects" }
                ))
            }
        }
        for (a, b) in base.prints.iter().zip(&v.prints) {
            if a != b {
                return Err(format!("String and {} print differently: {:?} and {:?}", name, short(a), short(b)));
            }
        }
        if v.consumed != base.consumed {
            return Err(format!("String and {} differ in consume_definition", name));
        }
        if borrows {
            let (lo, hi) = (t.as_ptr() as usize, t.as_ptr() as usize + t.len());
            for (p, n) in &v.names {
                if *p < lo || p + n > hi {
                    return Err(format!("{}: a name of {} bytes is no slice of the source text", name, n));
                }
            }
        }
        Ok(())
    };
    let mut s2 = Some((0, None));
    one("&str", view::<&str>(c, t, &mut s2), true)?;
    let mut s3 = Some((0, None));
    one("Cow<str>", view::<Cow<str>>(c, t, &mut s3), true)?;
    let mut s4 = Some((0, None));
    match c.p % 2 {
        0 => one("Arc<str>", view::<Shared>(c, t, &mut s4), false)?,
        _ => one("a user's borrowing type", view::<Word>(c, t, &mut s4), true)?,
    }
    for (what, s) in [("String", st), ("&str", s2), ("Cow<str>", s3), ("a user's type", s4)] {
        if let Some((n, bad)) = s {
            m.add("values made static", n as usize);
            if let Some(b) = bad {
                return Err(format!("Value::into_static of {}: {}", what, b));
            }
        }
    }
    // equality of the derived kind, for the types that have it
    if let (Ok(Doc::Q(a)), Ok(Doc::Q(b))) = (parse::<&str>(Lang::Query, t), parse::<&str>(Lang::Query, t)) {
        if !lib(|| a == b && a.clone() == b) {
            return Err("a document does not equal itself parsed again".into());
        }
    }
    Ok(())
}
