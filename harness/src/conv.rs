//! Observes the library's AST: writes it as a trace.
use crate::ev::{diff, Ev, Trace};
use crate::lib_api::lib;
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::Pos;
use std::cell::RefCell;

type O<'x> = &'x mut Trace;

fn pos(o: O, p: Pos) {
    o.push(Ev::P(p.line, p.column));
}
thread_local! {
    /// where every name of the ASTs observed lies, when asked for
    pub static NAMES: RefCell<Option<Vec<(usize, usize)>>> = const { RefCell::new(None) };
    /// also make every value static and compare: how many, and a difference
    pub static STATICS: RefCell<Option<(u64, Option<String>)>> = const { RefCell::new(None) };
}

fn nm(v: &str) -> String {
    NAMES.with(|n| {
        if let Some(n) = n.borrow_mut().as_mut() {
            n.push((v.as_ptr() as usize, v.len()));
        }
    });
    v.to_string()
}
fn s_(o: O, k: &'static str, v: &str) {
    o.push(Ev::S(k, nm(v)));
}
fn doc(o: O, d: &Option<String>) {
    if let Some(d) = d {
        o.push(Ev::Doc(d.clone()));
    }
}

pub fn value<'a, T: q::Text<'a>>(o: O, v: &q::Value<'a, T>) {
    let from = o.len();
    value_(o, v);
    if STATICS.with(|s| s.borrow().is_some()) {
        let own = lib(|| v.into_static());
        let mut t = Vec::new();
        let names = NAMES.with(|n| n.borrow_mut().take());
        value_(&mut t, &own);
        NAMES.with(|n| *n.borrow_mut() = names);
        let bad = diff(&o[from..], &t, false);
        STATICS.with(|s| {
            if let Some(s) = s.borrow_mut().as_mut() {
                s.0 += 1;
                if s.1.is_none() {
                    s.1 = bad;
                }
            }
        });
    }
}

fn value_<'a, T: q::Text<'a>>(o: O, v: &q::Value<'a, T>) {
    use q::Value::*;
    match v {
        Variable(n) => o.push(Ev::Var(nm(n.as_ref()))),
        Int(n) => match n.as_i64() {
            Some(i) => o.push(Ev::Int(i)),
            None => o.push(Ev::S("number that is no i64", "".to_string())),
        },
        Float(f) => o.push(Ev::Float(f.to_bits())),
        String(s) => o.push(Ev::Str(s.clone())),
        Boolean(b) => o.push(Ev::Bool(*b)),
        Null => o.push(Ev::Null),
        Enum(n) => o.push(Ev::Enum(nm(n.as_ref()))),
        List(l) => {
            o.push(Ev::List);
            for x in l {
                value_(o, x);
            }
            o.push(Ev::End);
        }
        Object(m) => {
            o.push(Ev::Obj);
            for (k, x) in m {
                o.push(Ev::Key(nm(k.as_ref())));
                value_(o, x);
            }
            o.push(Ev::End);
        }
    }
}

pub fn ty<'a, T: q::Text<'a>>(o: O, t: &q::Type<'a, T>) {
    match t {
        q::Type::NamedType(n) => s_(o, "named", n.as_ref()),
        q::Type::ListType(t) => {
            o.push(Ev::N("list-of"));
            ty(o, t);
            o.push(Ev::E);
        }
        q::Type::NonNullType(t) => {
            o.push(Ev::N("non-null"));
            ty(o, t);
            o.push(Ev::E);
        }
    }
}

fn args<'a, T: q::Text<'a>>(o: O, a: &[(T::Value, q::Value<'a, T>)]) {
    for (n, v) in a {
        o.push(Ev::N("arg"));
        s_(o, "name", n.as_ref());
        value(o, v);
        o.push(Ev::E);
    }
}

pub fn dirs<'a, T: q::Text<'a>>(o: O, d: &[q::Directive<'a, T>]) {
    for d in d {
        o.push(Ev::N("directive"));
        pos(o, d.position);
        s_(o, "name", d.name.as_ref());
        args::<T>(o, &d.arguments);
        o.push(Ev::E);
    }
}

pub fn set<'a, T: q::Text<'a>>(o: O, s: &q::SelectionSet<'a, T>) {
    o.push(Ev::N("set"));
    pos(o, s.span.0);
    pos(o, s.span.1);
    for x in &s.items {
        match x {
            q::Selection::Field(f) => {
                o.push(Ev::N("field"));
                pos(o, f.position);
                if let Some(a) = &f.alias {
                    s_(o, "alias", a.as_ref());
                }
                s_(o, "name", f.name.as_ref());
                args::<T>(o, &f.arguments);
                dirs(o, &f.directives);
                set(o, &f.selection_set);
                o.push(Ev::E);
            }
            q::Selection::FragmentSpread(f) => {
                o.push(Ev::N("spread"));
                pos(o, f.position);
                s_(o, "name", f.fragment_name.as_ref());
                dirs(o, &f.directives);
                o.push(Ev::E);
            }
            q::Selection::InlineFragment(f) => {
                o.push(Ev::N("inline"));
                pos(o, f.position);
                if let Some(q::TypeCondition::On(n)) = &f.type_condition {
                    s_(o, "on", n.as_ref());
                }
                dirs(o, &f.directives);
                set(o, &f.selection_set);
                o.push(Ev::E);
            }
        }
    }
    o.push(Ev::E);
}

pub fn variables<'a, T: q::Text<'a>>(o: O, vars: &[q::VariableDefinition<'a, T>]) {
    for v in vars {
        o.push(Ev::N("variable"));
        pos(o, v.position);
        s_(o, "name", v.name.as_ref());
        ty(o, &v.var_type);
        if let Some(d) = &v.default_value {
            o.push(Ev::N("default"));
            value(o, d);
            o.push(Ev::E);
        }
        o.push(Ev::E);
    }
}

fn op<'a, T: q::Text<'a>>(
    o: O,
    k: &'static str,
    p: Pos,
    name: &Option<T::Value>,
    vars: &[q::VariableDefinition<'a, T>],
    d: &[q::Directive<'a, T>],
    ss: &q::SelectionSet<'a, T>,
) {
    o.push(Ev::N(k));
    pos(o, p);
    if let Some(n) = name {
        s_(o, "name", n.as_ref());
    }
    variables(o, vars);
    dirs(o, d);
    set(o, ss);
    o.push(Ev::E);
}

pub fn query_def<'a, T: q::Text<'a>>(o: O, d: &q::Definition<'a, T>) {
    match d {
        q::Definition::Operation(x) => match x {
            q::OperationDefinition::SelectionSet(s) => {
                o.push(Ev::N("shorthand"));
                set(o, s);
                o.push(Ev::E);
            }
            q::OperationDefinition::Query(x) => op::<T>(
                o,
                "query",
                x.position,
                &x.name,
                &x.variable_definitions,
                &x.directives,
                &x.selection_set,
            ),
            q::OperationDefinition::Mutation(x) => op::<T>(
                o,
                "mutation",
                x.position,
                &x.name,
                &x.variable_definitions,
                &x.directives,
                &x.selection_set,
            ),
            q::OperationDefinition::Subscription(x) => op::<T>(
                o,
                "subscription",
                x.position,
                &x.name,
                &x.variable_definitions,
                &x.directives,
                &x.selection_set,
            ),
        },
        q::Definition::Fragment(f) => {
            o.push(Ev::N("fragment"));
            pos(o, f.position);
            s_(o, "name", f.name.as_ref());
            let q::TypeCondition::On(n) = &f.type_condition;
            s_(o, "on", n.as_ref());
            dirs(o, &f.directives);
            set(o, &f.selection_set);
            o.push(Ev::E);
        }
    }
}

pub fn query<'a, T: q::Text<'a>>(d: &q::Document<'a, T>) -> Trace {
    let mut o = Vec::new();
    for d in &d.definitions {
        query_def(&mut o, d);
    }
    o
}

pub fn input<'a, T: q::Text<'a>>(o: O, v: &s::InputValue<'a, T>) {
    o.push(Ev::N("input-value"));
    pos(o, v.position);
    doc(o, &v.description);
    s_(o, "name", v.name.as_ref());
    ty(o, &v.value_type);
    if let Some(d) = &v.default_value {
        o.push(Ev::N("default"));
        value(o, d);
        o.push(Ev::E);
    }
    dirs(o, &v.directives);
    o.push(Ev::E);
}

pub fn fields<'a, T: q::Text<'a>>(o: O, f: &[s::Field<'a, T>]) {
    for f in f {
        o.push(Ev::N("field-def"));
        pos(o, f.position);
        doc(o, &f.description);
        s_(o, "name", f.name.as_ref());
        for a in &f.arguments {
            input(o, a);
        }
        ty(o, &f.field_type);
        dirs(o, &f.directives);
        o.push(Ev::E);
    }
}

pub fn enum_values<'a, T: q::Text<'a>>(o: O, f: &[s::EnumValue<'a, T>]) {
    for f in f {
        o.push(Ev::N("enum-value"));
        pos(o, f.position);
        doc(o, &f.description);
        s_(o, "name", f.name.as_ref());
        dirs(o, &f.directives);
        o.push(Ev::E);
    }
}

macro_rules! head {
    ($o:ident, $k:expr, $x:ident) => {
        $o.push(Ev::N($k));
        pos($o, $x.position);
        doc($o, &$x.description);
        s_($o, "name", $x.name.as_ref());
    };
    (ext $o:ident, $k:expr, $x:ident) => {
        $o.push(Ev::N($k));
        pos($o, $x.position);
        s_($o, "name", $x.name.as_ref());
    };
}

pub fn schema_def<'a, T: s::Text<'a>>(o: O, d: &s::Definition<'a, T>) {
    use s::Definition as D;
    use s::TypeDefinition as TD;
    use s::TypeExtension as TE;
    match d {
        D::SchemaDefinition(x) => {
            o.push(Ev::N("schema"));
            pos(o, x.position);
            dirs(o, &x.directives);
            if let Some(n) = &x.query {
                s_(o, "root-query", n.as_ref());
            }
            if let Some(n) = &x.mutation {
                s_(o, "root-mutation", n.as_ref());
            }
            if let Some(n) = &x.subscription {
                s_(o, "root-subscription", n.as_ref());
            }
        }
        D::TypeDefinition(TD::Scalar(x)) => {
            head!(o, "scalar", x);
            dirs(o, &x.directives);
        }
        D::TypeExtension(TE::Scalar(x)) => {
            head!(ext o, "extend-scalar", x);
            dirs(o, &x.directives);
        }
        D::TypeDefinition(TD::Object(x)) => {
            head!(o, "type", x);
            for n in &x.implements_interfaces {
                s_(o, "implements", n.as_ref());
            }
            dirs(o, &x.directives);
            fields(o, &x.fields);
        }
        D::TypeExtension(TE::Object(x)) => {
            head!(ext o, "extend-type", x);
            for n in &x.implements_interfaces {
                s_(o, "implements", n.as_ref());
            }
            dirs(o, &x.directives);
            fields(o, &x.fields);
        }
        D::TypeDefinition(TD::Interface(x)) => {
            head!(o, "interface", x);
            for n in &x.implements_interfaces {
                s_(o, "implements", n.as_ref());
            }
            dirs(o, &x.directives);
            fields(o, &x.fields);
        }
        D::TypeExtension(TE::Interface(x)) => {
            head!(ext o, "extend-interface", x);
            for n in &x.implements_interfaces {
                s_(o, "implements", n.as_ref());
            }
            dirs(o, &x.directives);
            fields(o, &x.fields);
        }
        D::TypeDefinition(TD::Union(x)) => {
            head!(o, "union", x);
            dirs(o, &x.directives);
            for n in &x.types {
                s_(o, "member", n.as_ref());
            }
        }
        D::TypeExtension(TE::Union(x)) => {
            head!(ext o, "extend-union", x);
            dirs(o, &x.directives);
            for n in &x.types {
                s_(o, "member", n.as_ref());
            }
        }
        D::TypeDefinition(TD::Enum(x)) => {
            head!(o, "enum", x);
            dirs(o, &x.directives);
            enum_values(o, &x.values);
        }
        D::TypeExtension(TE::Enum(x)) => {
            head!(ext o, "extend-enum", x);
            dirs(o, &x.directives);
            enum_values(o, &x.values);
        }
        D::TypeDefinition(TD::InputObject(x)) => {
            head!(o, "input", x);
            dirs(o, &x.directives);
            for f in &x.fields {
                input(o, f);
            }
        }
        D::TypeExtension(TE::InputObject(x)) => {
            head!(ext o, "extend-input", x);
            dirs(o, &x.directives);
            for f in &x.fields {
                input(o, f);
            }
        }
        D::DirectiveDefinition(x) => {
            head!(o, "directive-def", x);
            for a in &x.arguments {
                input(o, a);
            }
            o.push(Ev::B("repeatable", x.repeatable));
            for l in &x.locations {
                o.push(Ev::S("location", location(l).to_string()));
            }
        }
    }
    o.push(Ev::E);
}

/// The specification's name of a location, by variant (not through the
/// library's own table)
pub fn location(l: &s::DirectiveLocation) -> &'static str {
    use s::DirectiveLocation::*;
    match l {
        Query => "QUERY",
        Mutation => "MUTATION",
        Subscription => "SUBSCRIPTION",
        Field => "FIELD",
        FragmentDefinition => "FRAGMENT_DEFINITION",
        FragmentSpread => "FRAGMENT_SPREAD",
        InlineFragment => "INLINE_FRAGMENT",
        Schema => "SCHEMA",
        Scalar => "SCALAR",
        Object => "OBJECT",
        FieldDefinition => "FIELD_DEFINITION",
        ArgumentDefinition => "ARGUMENT_DEFINITION",
        Interface => "INTERFACE",
        Union => "UNION",
        Enum => "ENUM",
        EnumValue => "ENUM_VALUE",
        InputObject => "INPUT_OBJECT",
        InputFieldDefinition => "INPUT_FIELD_DEFINITION",
        VariableDefinition => "VARIABLE_DEFINITION",
    }
}

pub fn schema<'a, T: s::Text<'a>>(d: &s::Document<'a, T>) -> Trace {
    let mut o = Vec::new();
    for d in &d.definitions {
        schema_def(&mut o, d);
    }
    o
}
