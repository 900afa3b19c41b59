//! Reference parser: an independent recursive descent over the reference
//! tokens that writes a trace, or says at which token a text stops being the
//! beginning of a document.
use crate::ev::{Ev, Trace};
use crate::lex::{self, Lexed, K};
use std::collections::BTreeMap;

pub const LIMIT: usize = 50;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum EK {
    /// the text there is no token
    Lex,
    /// a bracket too deep
    Depth,
    /// a token that does not fit
    Syntax,
    /// a token whose content is wrong
    Decode,
    /// a complete construct that is not allowed
    Semantic,
}

#[derive(Debug, Clone, Copy)]
pub struct PErr {
    pub tok: usize,
    pub kind: EK,
}

type R<T> = Result<T, PErr>;

pub struct P<'a> {
    lx: &'a Lexed<'a>,
    pub i: usize,
    depth: usize,
    pub out: Trace,
}

pub const LOCATIONS: [(&str, bool); 19] = [
    ("QUERY", true),
    ("MUTATION", true),
    ("SUBSCRIPTION", true),
    ("FIELD", true),
    ("FRAGMENT_DEFINITION", true),
    ("FRAGMENT_SPREAD", true),
    ("INLINE_FRAGMENT", true),
    ("VARIABLE_DEFINITION", true),
    ("SCHEMA", false),
    ("SCALAR", false),
    ("OBJECT", false),
    ("FIELD_DEFINITION", false),
    ("ARGUMENT_DEFINITION", false),
    ("INTERFACE", false),
    ("UNION", false),
    ("ENUM", false),
    ("ENUM_VALUE", false),
    ("INPUT_OBJECT", false),
    ("INPUT_FIELD_DEFINITION", false),
];

impl<'a> P<'a> {
    pub fn new(lx: &'a Lexed<'a>) -> P<'a> {
        P {
            lx,
            i: 0,
            depth: 0,
            out: Vec::new(),
        }
    }
    fn k(&self) -> K {
        if self.too_deep() {
            return K::Bad;
        }
        self.lx.toks[self.i].k
    }
    fn t(&self) -> &'a str {
        self.lx.text(self.i)
    }
    fn too_deep(&self) -> bool {
        self.depth >= LIMIT
            && self.lx.toks[self.i].k == K::Punct
            && matches!(self.t(), "(" | "[" | "{")
    }
    fn err(&self) -> PErr {
        let kind = if self.too_deep() {
            EK::Depth
        } else if self.lx.toks[self.i].k == K::Bad {
            EK::Lex
        } else {
            EK::Syntax
        };
        PErr { tok: self.i, kind }
    }
    fn decode(&self) -> PErr {
        PErr {
            tok: self.i,
            kind: EK::Decode,
        }
    }
    fn is(&self, s: &str) -> bool {
        matches!(self.k(), K::Punct | K::Name) && self.t() == s
    }
    fn bump(&mut self) {
        match self.t() {
            "(" | "[" | "{" => self.depth += 1,
            ")" | "]" | "}" => self.depth = self.depth.saturating_sub(1),
            _ => {}
        }
        self.i += 1;
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.is(s);
        if y {
            self.bump();
        }
        y
    }
    fn need(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            Err(self.err())
        }
    }
    fn name(&mut self) -> R<String> {
        if self.k() == K::Name {
            let s = self.t().to_string();
            self.bump();
            Ok(s)
        } else {
            Err(self.err())
        }
    }
    fn name_ev(&mut self) -> R<()> {
        let n = self.name()?;
        self.out.push(Ev::S("name", n));
        Ok(())
    }
    fn pos(&mut self) {
        let t = &self.lx.toks[self.i];
        self.out.push(Ev::P(t.line, t.col));
    }
    fn n(&mut self, k: &'static str) {
        self.out.push(Ev::N(k));
    }
    fn e(&mut self) {
        self.out.push(Ev::E);
    }

    fn value(&mut self, vars: bool) -> R<()> {
        let t = self.t();
        match self.k() {
            K::Name => {
                self.out.push(match t {
                    "true" => Ev::Bool(true),
                    "false" => Ev::Bool(false),
                    "null" => Ev::Null,
                    _ => Ev::Enum(t.to_string()),
                });
                self.bump();
            }
            K::Int => {
                let v: i64 = t.parse().map_err(|_| self.decode())?;
                self.out.push(Ev::Int(v));
                self.bump();
            }
            K::Float => {
                let v: f64 = t.parse().map_err(|_| self.decode())?;
                self.out.push(Ev::Float(v.to_bits()));
                self.bump();
            }
            K::Str | K::Block => {
                let s = self.string()?;
                self.out.push(Ev::Str(s));
            }
            K::Punct if t == "$" && vars => {
                self.bump();
                let n = self.name()?;
                self.out.push(Ev::Var(n));
            }
            K::Punct if t == "[" => {
                self.bump();
                self.out.push(Ev::List);
                while !self.is("]") {
                    if self.k() == K::Eof {
                        return Err(self.err());
                    }
                    self.value(vars)?;
                }
                self.bump();
                self.out.push(Ev::End);
            }
            K::Punct if t == "{" => {
                self.bump();
                let mut map: BTreeMap<String, Trace> = BTreeMap::new();
                while !self.is("}") {
                    let key = self.name()?;
                    self.need(":")?;
                    let outer = std::mem::take(&mut self.out);
                    let r = self.value(vars);
                    let v = std::mem::replace(&mut self.out, outer);
                    r?;
                    map.insert(key, v);
                }
                self.bump();
                self.out.push(Ev::Obj);
                for (k, v) in map {
                    self.out.push(Ev::Key(k));
                    self.out.extend(v);
                }
                self.out.push(Ev::End);
            }
            _ => return Err(self.err()),
        }
        Ok(())
    }

    fn string(&mut self) -> R<String> {
        let s = match self.k() {
            K::Str => lex::unquote(self.t()).map_err(|_| self.decode())?,
            K::Block => lex::unblock(self.t()),
            _ => return Err(self.err()),
        };
        self.bump();
        Ok(s)
    }

    fn arguments(&mut self) -> R<()> {
        if self.eat("(") {
            loop {
                let n = self.name()?;
                self.need(":")?;
                self.n("arg");
                self.out.push(Ev::S("name", n));
                self.value(true)?;
                self.e();
                if self.eat(")") {
                    break;
                }
            }
        }
        Ok(())
    }

    fn directives(&mut self) -> R<()> {
        while self.is("@") {
            self.n("directive");
            self.pos();
            self.bump();
            self.name_ev()?;
            self.arguments()?;
            self.e();
        }
        Ok(())
    }

    fn ty(&mut self) -> R<()> {
        let at = self.out.len();
        if self.is("[") {
            self.bump();
            self.n("list-of");
            self.ty()?;
            self.need("]")?;
            self.e();
        } else {
            let n = self.name()?;
            self.out.push(Ev::S("named", n));
        }
        if self.eat("!") {
            self.out.insert(at, Ev::N("non-null"));
            self.e();
        }
        Ok(())
    }

    // ---- executable documents

    fn selection_set(&mut self) -> R<()> {
        if !self.is("{") {
            return Err(self.err());
        }
        self.n("set");
        self.pos();
        let at = self.out.len();
        self.bump();
        loop {
            self.selection()?;
            if self.is("}") {
                break;
            }
        }
        let t = &self.lx.toks[self.i];
        self.out.insert(at, Ev::P(t.line, t.col));
        self.bump();
        self.e();
        Ok(())
    }

    fn selection(&mut self) -> R<()> {
        if self.eat("...") {
            let inline = self.is("on") || self.is("@") || self.is("{");
            if inline {
                self.n("inline");
                self.pos();
                if self.eat("on") {
                    let n = self.name()?;
                    self.out.push(Ev::S("on", n));
                }
                self.directives()?;
                self.selection_set()?;
                self.e();
            } else {
                self.n("spread");
                self.pos();
                self.name_ev()?;
                self.directives()?;
                self.e();
            }
            return Ok(());
        }
        if self.k() != K::Name {
            return Err(self.err());
        }
        self.n("field");
        self.pos();
        let p = self.out[self.out.len() - 1].clone();
        let a = self.name()?;
        if self.eat(":") {
            self.out.push(Ev::S("alias", a));
            self.name_ev()?;
        } else {
            self.out.push(Ev::S("name", a));
        }
        self.arguments()?;
        self.directives()?;
        if self.is("{") {
            self.selection_set()?;
        } else {
            self.n("set");
            self.out.push(p.clone());
            self.out.push(p);
            self.e();
        }
        self.e();
        Ok(())
    }

    pub fn query_def(&mut self) -> R<()> {
        if self.is("{") {
            self.n("shorthand");
            self.selection_set()?;
            self.e();
            return Ok(());
        }
        for k in ["query", "mutation", "subscription"] {
            if self.is(k) {
                self.n(k);
                self.pos();
                self.bump();
                if self.k() == K::Name {
                    self.name_ev()?;
                }
                if self.eat("(") {
                    loop {
                        if !self.is("$") {
                            return Err(self.err());
                        }
                        self.n("variable");
                        self.pos();
                        self.bump();
                        self.name_ev()?;
                        self.need(":")?;
                        self.ty()?;
                        if self.eat("=") {
                            self.n("default");
                            self.value(false)?;
                            self.e();
                        }
                        self.e();
                        if self.eat(")") {
                            break;
                        }
                    }
                }
                self.directives()?;
                self.selection_set()?;
                self.e();
                return Ok(());
            }
        }
        if self.is("fragment") {
            self.n("fragment");
            self.pos();
            self.bump();
            self.name_ev()?;
            self.need("on")?;
            let n = self.name()?;
            self.out.push(Ev::S("on", n));
            self.directives()?;
            self.selection_set()?;
            self.e();
            return Ok(());
        }
        Err(self.err())
    }

    // ---- type system documents

    fn description(&mut self) -> R<()> {
        if matches!(self.k(), K::Str | K::Block) {
            let s = self.string()?;
            self.out.push(Ev::Doc(s));
        }
        Ok(())
    }

    fn input_value(&mut self) -> R<()> {
        self.n("input-value");
        self.pos();
        self.description()?;
        self.name_ev()?;
        self.need(":")?;
        self.ty()?;
        if self.eat("=") {
            self.n("default");
            self.value(false)?;
            self.e();
        }
        self.directives()?;
        self.e();
        Ok(())
    }

    fn field_def(&mut self) -> R<()> {
        self.n("field-def");
        self.pos();
        self.description()?;
        self.name_ev()?;
        if self.eat("(") {
            loop {
                self.input_value()?;
                if self.eat(")") {
                    break;
                }
            }
        }
        self.need(":")?;
        self.ty()?;
        self.directives()?;
        self.e();
        Ok(())
    }

    /// the type definition at the cursor (its keyword), returns false if there
    /// is none
    fn type_def(&mut self, ext: bool, doc: Option<String>) -> R<bool> {
        let kw = self.i;
        let kind = match self.k() {
            K::Name => self.t(),
            _ => return Ok(false),
        };
        let label = match (kind, ext) {
            ("scalar", false) => "scalar",
            ("scalar", true) => "extend-scalar",
            ("type", false) => "type",
            ("type", true) => "extend-type",
            ("interface", false) => "interface",
            ("interface", true) => "extend-interface",
            ("union", false) => "union",
            ("union", true) => "extend-union",
            ("enum", false) => "enum",
            ("enum", true) => "extend-enum",
            ("input", false) => "input",
            ("input", true) => "extend-input",
            _ => return Ok(false),
        };
        self.n(label);
        self.pos();
        if let Some(d) = doc {
            self.out.push(Ev::Doc(d));
        }
        self.bump();
        self.name_ev()?;
        let before = self.out.len();
        if (kind == "type" || kind == "interface") && self.eat("implements") {
            self.eat("&");
            loop {
                let n = self.name()?;
                self.out.push(Ev::S("implements", n));
                if !self.eat("&") {
                    break;
                }
            }
        }
        self.directives()?;
        match kind {
            "type" | "interface" if self.eat("{") => loop {
                self.field_def()?;
                if self.eat("}") {
                    break;
                }
            },
            "input" if self.eat("{") => loop {
                self.input_value()?;
                if self.eat("}") {
                    break;
                }
            },
            "enum" if self.eat("{") => loop {
                self.n("enum-value");
                self.pos();
                self.description()?;
                self.name_ev()?;
                self.directives()?;
                self.e();
                if self.eat("}") {
                    break;
                }
            },
            "union" if self.eat("=") => {
                self.eat("|");
                loop {
                    let n = self.name()?;
                    self.out.push(Ev::S("member", n));
                    if !self.eat("|") {
                        break;
                    }
                }
            }
            _ => {}
        }
        if ext && self.out.len() == before {
            return Err(PErr {
                tok: kw,
                kind: EK::Semantic,
            });
        }
        self.e();
        Ok(true)
    }

    pub fn schema_def(&mut self) -> R<()> {
        if self.is("schema") {
            let kw = self.i;
            self.n("schema");
            self.pos();
            self.bump();
            self.directives()?;
            self.need("{")?;
            let mut roots: [Option<String>; 3] = [None, None, None];
            let mut bad = false;
            while !self.eat("}") {
                let op = self.name()?;
                self.need(":")?;
                let ty = self.name()?;
                match ["query", "mutation", "subscription"].iter().position(|k| *k == op) {
                    Some(j) if roots[j].is_none() => roots[j] = Some(ty),
                    _ => bad = true,
                }
            }
            if bad {
                return Err(PErr {
                    tok: kw,
                    kind: EK::Semantic,
                });
            }
            for (k, r) in ["root-query", "root-mutation", "root-subscription"].into_iter().zip(roots) {
                if let Some(r) = r {
                    self.out.push(Ev::S(k, r));
                }
            }
            self.e();
            return Ok(());
        }
        if self.eat("extend") {
            return if self.type_def(true, None)? {
                Ok(())
            } else {
                Err(self.err())
            };
        }
        let mut doc = None;
        if matches!(self.k(), K::Str | K::Block) {
            doc = Some(self.string()?);
        }
        if self.is("directive") {
            self.n("directive-def");
            self.pos();
            if let Some(d) = doc {
                self.out.push(Ev::Doc(d));
            }
            self.bump();
            self.need("@")?;
            self.name_ev()?;
            if self.eat("(") {
                loop {
                    self.input_value()?;
                    if self.eat(")") {
                        break;
                    }
                }
            }
            let rep = self.eat("repeatable");
            self.out.push(Ev::B("repeatable", rep));
            self.need("on")?;
            let led = self.eat("|");
            if led || self.k() == K::Name {
                loop {
                    if self.k() != K::Name {
                        return Err(self.err());
                    }
                    let t = self.t();
                    if !LOCATIONS.iter().any(|l| l.0 == t) {
                        return Err(self.decode());
                    }
                    self.out.push(Ev::S("location", t.to_string()));
                    self.bump();
                    if !self.eat("|") {
                        break;
                    }
                }
            }
            self.e();
            return Ok(());
        }
        if self.type_def(false, doc)? {
            Ok(())
        } else {
            Err(self.err())
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lang {
    Query,
    Schema,
}

/// The trace of a whole document
pub fn document(lx: &Lexed, lang: Lang) -> R<Trace> {
    let mut p = P::new(lx);
    loop {
        match lang {
            Lang::Query => p.query_def()?,
            Lang::Schema => p.schema_def()?,
        }
        if lx.toks[p.i].k == K::Eof {
            return Ok(p.out);
        }
    }
}

/// The trace of the first definition and the index of the token after it
pub fn first_definition(lx: &Lexed) -> R<(Trace, usize)> {
    let mut p = P::new(lx);
    p.query_def()?;
    Ok((p.out, p.i))
}
