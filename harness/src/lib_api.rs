//! The library as the monitors call it. Every call goes through `lib`, so a
//! panic inside one is told from a defect of the harness.
use crate::conv;
use crate::ev::{Ev, Trace};
use crate::refparse::Lang;
use crate::refprint;
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::Style;
use std::cell::Cell;

thread_local! {
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
    /// calls made on this thread
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    IN_LIB.with(|x| x.set(true));
    CALLS.with(|x| x.set(x.get() + 1));
    let r = f();
    IN_LIB.with(|x| x.set(false));
    r
}

pub enum Doc<'a, T: q::Text<'a>> {
    Q(q::Document<'a, T>),
    S(s::Document<'a, T>),
}

pub fn style(w: usize, multi: bool) -> Style {
    let mut st = Style::default();
    st.indent(w as u32).multiline_arguments(multi);
    st
}

pub fn parse<'a, T: q::Text<'a>>(lang: Lang, t: &'a str) -> Result<Doc<'a, T>, String> {
    lib(|| match lang {
        Lang::Query => graphql_parser::parse_query::<T>(t).map(Doc::Q).map_err(|e| e.to_string()),
        Lang::Schema => graphql_parser::parse_schema::<T>(t).map(Doc::S).map_err(|e| e.to_string()),
    })
}

pub fn consume<'a, T: q::Text<'a>>(t: &'a str) -> Result<(q::Definition<'a, T>, &'a str), String> {
    lib(|| q::consume_definition::<T>(t).map_err(|e| e.to_string()))
}

pub fn minify(t: &str) -> Result<String, String> {
    lib(|| graphql_parser::minify_query(t.to_string()).map_err(|e| e.to_string()))
}

impl<'a, T: q::Text<'a>> Doc<'a, T> {
    pub fn trace(&self) -> Trace {
        match self {
            Doc::Q(d) => conv::query(d),
            Doc::S(d) => conv::schema(d),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Doc::Q(d) => d.definitions.len(),
            Doc::S(d) => d.definitions.len(),
        }
    }
    pub fn format(&self, w: usize, multi: bool) -> String {
        let st = style(w, multi);
        lib(|| match self {
            Doc::Q(d) => d.format(&st),
            Doc::S(d) => d.format(&st),
        })
    }
    pub fn display(&self) -> String {
        lib(|| match self {
            Doc::Q(d) => d.to_string(),
            Doc::S(d) => d.to_string(),
        })
    }
    pub fn canon(&self, w: usize, multi: bool) -> String {
        match self {
            Doc::Q(d) => refprint::query(d, w, multi),
            Doc::S(d) => refprint::schema(d, w, multi),
        }
    }
}

pub fn def_trace<'a, T: q::Text<'a>>(d: &q::Definition<'a, T>) -> Trace {
    let mut o: Vec<Ev> = Vec::new();
    conv::query_def(&mut o, d);
    o
}

/// line and column of a parse error
pub fn err_pos(msg: &str) -> Option<(usize, usize)> {
    let at = msg.find("Parse error at ")? + "Parse error at ".len();
    let rest = &msg[at..];
    let line: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
    let rest = rest[line.len()..].strip_prefix(':')?;
    let col: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
    Some((line.parse().ok()?, col.parse().ok()?))
}

/// The token a message says it did not expect, with its kind:
/// "Unexpected `tok[Kind]`"
pub fn err_token(msg: &str) -> Option<(String, String)> {
    let m = "Unexpected `";
    let mut from = 0;
    while let Some(i) = msg[from..].find(m) {
        let rest = &msg[from + i + m.len()..];
        for k in ["Punctuator", "Name", "IntValue", "FloatValue", "StringValue", "BlockString"] {
            if let Some(j) = rest.find(&format!("[{}]`\n", k)) {
                // the shortest token that ends so
                let tok = &rest[..j];
                if !tok.contains("]`\n") {
                    return Some((tok.to_string(), k.to_string()));
                }
            }
        }
        from += i + m.len();
    }
    None
}
