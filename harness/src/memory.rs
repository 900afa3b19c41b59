//! S01: what sanitizers cannot see by themselves. Run in builds with
//! AddressSanitizer and in Miri as well as natively.
use crate::alloc::held;
use crate::checks::{Case, Mon, Verdict};
use crate::conv;
use crate::ev::{diff, Ev, Trace};
use crate::lib_api::*;
use crate::refparse::Lang;
use graphql_parser::query as q;
use std::cell::Cell;

thread_local! {
    /// how often to repeat the call when looking for leaks (0: not at all)
    pub static LEAKS: Cell<bool> = const { Cell::new(true) };
}

fn utf8(t: &Trace) -> Verdict {
    for e in t {
        if let Ev::S(_, s) | Ev::Doc(s) | Ev::Var(s) | Ev::Str(s) | Ev::Enum(s) | Ev::Key(s) = e {
            let b = std::hint::black_box(s.as_bytes().to_vec());
            if std::str::from_utf8(&b).is_err() {
                return Err(format!("a text in the AST is not UTF-8: {:02x?}", &b[..b.len().min(20)]));
            }
        }
    }
    Ok(())
}

/// everything at once, nothing kept
fn all(c: &Case, t: &str) {
    if let Ok(d) = parse::<String>(c.lang, t) {
        std::hint::black_box((d.format(2, true), d.display()));
        match d {
            Doc::Q(d) => lib(|| drop(d.clone().into_static())),
            Doc::S(d) => lib(|| drop(d.clone().into_static())),
        }
    }
    drop(parse::<&str>(c.lang, t).map(|d| d.display()));
    drop(consume::<&str>(t));
    drop(minify(t));
    lib(|| match c.lang {
        Lang::Query => drop(graphql_parser::parse_query::<&str>(t)),
        Lang::Schema => drop(graphql_parser::parse_schema::<&str>(t)),
    })
}

enum Own {
    Q(q::Document<'static, String>),
    S(graphql_parser::schema::Document<'static, String>),
    V(Vec<q::Value<'static, String>>),
}
impl Own {
    fn trace(&self) -> Trace {
        match self {
            Own::Q(d) => conv::query(d),
            Own::S(d) => conv::schema(d),
            Own::V(v) => {
                let mut o = Vec::new();
                v.iter().for_each(|v| conv::value(&mut o, v));
                o
            }
        }
    }
    fn print(&self) -> String {
        lib(|| match self {
            Own::Q(d) => d.to_string(),
            Own::S(d) => d.to_string(),
            Own::V(v) => v.iter().map(|v| v.to_string()).collect(),
        })
    }
}

fn values<'a, T: q::Text<'a> + Clone>(d: &Doc<'a, T>) -> Vec<q::Value<'static, String>> {
    let mut o = Vec::new();
    let mut args = |a: &[(T::Value, q::Value<'a, T>)]| {
        for x in a {
            o.push(lib(|| x.1.into_static()));
        }
    };
    match d {
        Doc::Q(d) => {
            fn set<'a, T: q::Text<'a>>(s: &q::SelectionSet<'a, T>, f: &mut dyn FnMut(&[(T::Value, q::Value<'a, T>)])) {
                for i in &s.items {
                    match i {
                        q::Selection::Field(x) => {
                            f(&x.arguments);
                            x.directives.iter().for_each(|d| f(&d.arguments));
                            set(&x.selection_set, f);
                        }
                        q::Selection::FragmentSpread(x) => x.directives.iter().for_each(|d| f(&d.arguments)),
                        q::Selection::InlineFragment(x) => {
                            x.directives.iter().for_each(|d| f(&d.arguments));
                            set(&x.selection_set, f);
                        }
                    }
                }
            }
            for x in &d.definitions {
                match x {
                    q::Definition::Operation(q::OperationDefinition::SelectionSet(s)) => set(s, &mut args),
                    q::Definition::Operation(q::OperationDefinition::Query(x)) => set(&x.selection_set, &mut args),
                    q::Definition::Operation(q::OperationDefinition::Mutation(x)) => set(&x.selection_set, &mut args),
                    q::Definition::Operation(q::OperationDefinition::Subscription(x)) => {
                        set(&x.selection_set, &mut args)
                    }
                    q::Definition::Fragment(x) => set(&x.selection_set, &mut args),
                }
            }
        }
        Doc::S(d) => {
            use graphql_parser::schema::{Definition as D, TypeDefinition as TD};
            for x in &d.definitions {
                match x {
                    D::SchemaDefinition(x) => x.directives.iter().for_each(|d| args(&d.arguments)),
                    D::TypeDefinition(TD::Scalar(x)) => x.directives.iter().for_each(|d| args(&d.arguments)),
                    D::TypeDefinition(TD::Enum(x)) => x.directives.iter().for_each(|d| args(&d.arguments)),
                    D::TypeDefinition(TD::InputObject(x)) => {
                        for f in &x.fields {
                            if let Some(v) = &f.default_value {
                                args(&[(f.name.clone(), v.clone())]);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    o
}

pub fn s01(c: &Case, m: &mut Mon) -> Verdict {
    m.nontrivial = c.text.len() > 1;
    // a source text of its own that can be overwritten and freed
    let detach = |k: usize| -> Result<Option<(Trace, String, Own)>, String> {
        let mut src: Box<[u8]> = c.text.as_bytes().to_vec().into_boxed_slice();
        let got = {
            let text = std::str::from_utf8(&src).unwrap();
            match k {
                0 => match parse::<String>(c.lang, text) {
                    Err(_) => None,
                    Ok(d) => {
                        let (t, p) = (d.trace(), d.display());
                        utf8(&t)?;
                        Some((
                            t,
                            p,
                            match d {
                                Doc::Q(d) => Own::Q(lib(|| d.into_static())),
                                Doc::S(d) => Own::S(lib(|| d.into_static())),
                            },
                        ))
                    }
                },
                _ => match parse::<&str>(c.lang, text) {
                    Err(_) => None,
                    Ok(d) => {
                        utf8(&d.trace())?;
                        let own = Own::V(values(&d));
                        Some((own.trace(), own.print(), own))
                    }
                },
            }
        };
        for b in src.iter_mut() {
            *b = b'\xff';
        }
        drop(std::hint::black_box(src));
        std::hint::black_box(vec![0xfeu8; c.text.len()]);
        Ok(got)
    };
    let mut any = false;
    for k in 0..2 {
        let Some((t, p, own)) = detach(k)? else { continue };
        any = true;
        m.see("ASTs detached from a freed text");
        m.add("trace events compared", t.len());
        let judge = move |own: &Own, t: &Trace, p: &str, wh: &str| -> Verdict {
            let now = own.trace();
            utf8(&now)?;
            if let Some(d) = diff(t, &now, false) {
                return Err(format!("after into_static and freeing the text, {}: {}", wh, d));
            }
            if own.print() != p {
                return Err(format!("after into_static and freeing the text, {}: printed differently", wh));
            }
            Ok(())
        };
        judge(&own, &t, &p, "on the same thread")?;
        if c.p % 4 == 0 {
            m.see("ASTs used and dropped on another thread");
            std::thread::spawn(move || {
                let r = judge(&own, &t, &p, "on another thread");
                drop(own);
                r
            })
            .join()
            .unwrap_or_else(|_| Err("panic on another thread".into()))?;
        } else {
            drop(own);
        }
    }
    m.see(if any { "documents accepted" } else { "texts rejected" });
    if LEAKS.with(|l| l.get()) {
        // the first calls may set up what stays
        all(c, &c.text);
        all(c, &c.text);
        let before = held();
        all(c, &c.text);
        let after = held();
        m.see("calls balanced");
        if after != before {
            return Err(format!(
                "{} bytes in {} blocks are still held after everything was dropped",
                after.0 - before.0,
                after.1 - before.1
            ));
        }
    }
    Ok(())
}
