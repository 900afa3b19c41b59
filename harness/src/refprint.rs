//! The canonical layout, stated independently: what `format` has to produce
//! for an AST and a style.
use graphql_parser::query as q;
use graphql_parser::schema as s;

pub struct Pr {
    pub w: usize,
    pub multi: bool,
    out: String,
}

fn fits_block(v: &str) -> bool {
    let lines: Vec<&str> = v.split('\n').collect();
    let blank = |l: &str| l.bytes().all(|b| b == b' ' || b == b'\t');
    lines.len() > 1
        && !v.chars().any(|c| (c as u32) < 32 && c != '\n' && c != '\t')
        && !blank(lines[0])
        && !blank(lines[lines.len() - 1])
        && lines.iter().all(|l| l.is_empty() || !blank(l))
        && lines.iter().any(|l| !l.is_empty() && !l.starts_with(' ') && !l.starts_with('\t'))
}

impl Pr {
    pub fn new(w: usize, multi: bool) -> Pr {
        Pr {
            w,
            multi,
            out: String::new(),
        }
    }
    fn p(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn ind(&mut self, d: usize) {
        for _ in 0..d * self.w {
            self.out.push(' ');
        }
    }
    fn line(&mut self, d: usize, s: &str) {
        self.ind(d);
        self.p(s);
        self.p("\n");
    }

    pub fn string(&mut self, v: &str, d: usize) {
        if fits_block(v) {
            self.p("\"\"\"\n");
            for l in v.split('\n') {
                if l.is_empty() {
                    self.p("\n");
                } else {
                    let l = l.replace("\"\"\"", "\\\"\"\"");
                    self.line(d + 1, &l);
                }
            }
            self.ind(d);
            self.p("\"\"\"");
            return;
        }
        self.p("\"");
        for c in v.chars() {
            match c {
                '"' => self.p("\\\""),
                '\\' => self.p("\\\\"),
                '\n' => self.p("\\n"),
                '\r' => self.p("\\r"),
                '\t' => self.p("\\t"),
                c if (c as u32) < 32 => {
                    let e = format!("\\u00{:02X}", c as u32);
                    self.p(&e)
                }
                c => self.out.push(c),
            }
        }
        self.p("\"");
    }

    /// a bracketed list at level d
    fn group<X>(&mut self, o: &str, c: &str, xs: &[X], d: usize, f: &dyn Fn(&mut Pr, &X, usize)) {
        self.p(o);
        let inner = if self.multi { d + 1 } else { d };
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            if self.multi {
                self.p("\n");
                self.ind(inner);
            } else if i > 0 {
                self.p(" ");
            }
            f(self, x, inner);
        }
        if self.multi {
            self.p("\n");
            self.ind(d);
        }
        self.p(c);
    }

    pub fn value<'a, T: q::Text<'a>>(&mut self, v: &q::Value<'a, T>, d: usize) {
        use q::Value::*;
        match v {
            Variable(n) => {
                self.p("$");
                self.p(n.as_ref())
            }
            Int(n) => {
                let t = n.as_i64().unwrap().to_string();
                self.p(&t)
            }
            Float(f) => {
                let t = if f.is_infinite() {
                    if *f > 0.0 { "1e999" } else { "-1e999" }.to_string()
                } else if f.abs() >= 9007199254740992.0 {
                    format!("{:e}", f)
                } else if *f == 0.0 && f.is_sign_negative() {
                    "-0.0".to_string()
                } else {
                    f.to_string()
                };
                self.p(&t)
            }
            String(s) => self.string(s, d),
            Boolean(b) => self.p(if *b { "true" } else { "false" }),
            Null => self.p("null"),
            Enum(n) => self.p(n.as_ref()),
            List(l) => self.group("[", "]", l, d, &|p, x, d| p.value(x, d)),
            Object(m) => {
                let l: Vec<_> = m.iter().collect();
                self.group("{", "}", &l, d, &|p, x, d| {
                    p.p(x.0.as_ref());
                    p.p(": ");
                    p.value(x.1, d)
                })
            }
        }
    }

    fn args<'a, T: q::Text<'a>>(&mut self, a: &[(T::Value, q::Value<'a, T>)], d: usize) {
        if !a.is_empty() {
            self.group("(", ")", a, d, &|p, x, d| {
                p.p(x.0.as_ref());
                p.p(": ");
                p.value(&x.1, d)
            });
        }
    }

    pub fn directive<'a, T: q::Text<'a>>(&mut self, x: &q::Directive<'a, T>, d: usize) {
        self.p("@");
        self.p(x.name.as_ref());
        self.args::<T>(&x.arguments, d);
    }

    fn dirs<'a, T: q::Text<'a>>(&mut self, x: &[q::Directive<'a, T>], d: usize) {
        for x in x {
            self.p(" ");
            self.directive(x, d);
        }
    }

    pub fn ty<'a, T: q::Text<'a>>(&mut self, t: &q::Type<'a, T>) {
        match t {
            q::Type::NamedType(n) => self.p(n.as_ref()),
            q::Type::ListType(t) => {
                self.p("[");
                self.ty(t);
                self.p("]")
            }
            q::Type::NonNullType(t) => {
                self.ty(t);
                self.p("!")
            }
        }
    }

    /// from the brace to the end of the closing line
    fn set<'a, T: q::Text<'a>>(&mut self, x: &q::SelectionSet<'a, T>, d: usize) {
        self.p("{\n");
        for x in &x.items {
            match x {
                q::Selection::Field(f) => self.field(f, d + 1),
                q::Selection::FragmentSpread(f) => self.spread(f, d + 1),
                q::Selection::InlineFragment(f) => self.inline(f, d + 1),
            }
        }
        self.line(d, "}");
    }
    pub fn shorthand<'a, T: q::Text<'a>>(&mut self, x: &q::SelectionSet<'a, T>) {
        self.set(x, 0);
    }

    pub fn field<'a, T: q::Text<'a>>(&mut self, f: &q::Field<'a, T>, d: usize) {
        self.ind(d);
        if let Some(a) = &f.alias {
            self.p(a.as_ref());
            self.p(": ");
        }
        self.p(f.name.as_ref());
        self.args::<T>(&f.arguments, d);
        self.dirs(&f.directives, d);
        if f.selection_set.items.is_empty() {
            self.p("\n");
        } else {
            self.p(" ");
            self.set(&f.selection_set, d);
        }
    }
    pub fn spread<'a, T: q::Text<'a>>(&mut self, f: &q::FragmentSpread<'a, T>, d: usize) {
        self.ind(d);
        self.p("...");
        self.p(f.fragment_name.as_ref());
        self.dirs(&f.directives, d);
        self.p("\n");
    }
    pub fn inline<'a, T: q::Text<'a>>(&mut self, f: &q::InlineFragment<'a, T>, d: usize) {
        self.ind(d);
        self.p("...");
        if let Some(q::TypeCondition::On(n)) = &f.type_condition {
            self.p(" on ");
            self.p(n.as_ref());
        }
        self.dirs(&f.directives, d);
        self.p(" ");
        self.set(&f.selection_set, d);
    }
    pub fn variable<'a, T: q::Text<'a>>(&mut self, v: &q::VariableDefinition<'a, T>) {
        self.p("$");
        self.p(v.name.as_ref());
        self.p(": ");
        self.ty(&v.var_type);
        if let Some(x) = &v.default_value {
            self.p(" = ");
            self.value(x, 0);
        }
    }
    pub fn op<'a, T: q::Text<'a>>(
        &mut self,
        k: &str,
        name: &Option<T::Value>,
        vars: &[q::VariableDefinition<'a, T>],
        dirs: &[q::Directive<'a, T>],
        set: &q::SelectionSet<'a, T>,
    ) {
        self.p(k);
        if let Some(n) = name {
            self.p(" ");
            self.p(n.as_ref());
        }
        for (i, v) in vars.iter().enumerate() {
            self.p(if i == 0 { "(" } else { ", " });
            self.variable(v);
        }
        if !vars.is_empty() {
            self.p(")");
        }
        self.dirs(dirs, 0);
        self.p(" ");
        self.set(set, 0);
    }

    pub fn query_def<'a, T: q::Text<'a>>(&mut self, d: &q::Definition<'a, T>) {
        use q::OperationDefinition as O;
        match d {
            q::Definition::Operation(O::SelectionSet(s)) => self.set(s, 0),
            q::Definition::Operation(O::Query(x)) => self.op::<T>(
                "query",
                &x.name,
                &x.variable_definitions,
                &x.directives,
                &x.selection_set,
            ),
            q::Definition::Operation(O::Mutation(x)) => self.op::<T>(
                "mutation",
                &x.name,
                &x.variable_definitions,
                &x.directives,
                &x.selection_set,
            ),
            q::Definition::Operation(O::Subscription(x)) => self.op::<T>(
                "subscription",
                &x.name,
                &x.variable_definitions,
                &x.directives,
                &x.selection_set,
            ),
            q::Definition::Fragment(f) => {
                self.p("fragment ");
                self.p(f.name.as_ref());
                let q::TypeCondition::On(n) = &f.type_condition;
                self.p(" on ");
                self.p(n.as_ref());
                self.dirs(&f.directives, 0);
                self.p(" ");
                self.set(&f.selection_set, 0);
            }
        }
    }

    // ---- schema

    fn doc_line(&mut self, x: &Option<String>, d: usize) {
        if let Some(x) = x {
            self.ind(d);
            self.string(x, d);
            self.p("\n");
        }
    }
    pub fn input<'a, T: s::Text<'a>>(&mut self, v: &s::InputValue<'a, T>, d: usize) {
        if let Some(x) = &v.description {
            self.string(x, d);
            self.p(" ");
        }
        self.p(v.name.as_ref());
        self.p(": ");
        self.ty(&v.value_type);
        if let Some(x) = &v.default_value {
            self.p(" = ");
            self.value(x, d);
        }
        self.dirs(&v.directives, d);
    }
    fn inputs<'a, T: s::Text<'a>>(&mut self, v: &[s::InputValue<'a, T>], d: usize) {
        for (i, v) in v.iter().enumerate() {
            self.p(if i == 0 { "(" } else { ", " });
            self.input(v, d);
        }
        if !v.is_empty() {
            self.p(")");
        }
    }
    pub fn field_def<'a, T: s::Text<'a>>(&mut self, f: &s::Field<'a, T>, d: usize) {
        self.doc_line(&f.description, d);
        self.ind(d);
        self.p(f.name.as_ref());
        self.inputs(&f.arguments, d);
        self.p(": ");
        self.ty(&f.field_type);
        self.dirs(&f.directives, d);
        self.p("\n");
    }
    fn fields<'a, T: s::Text<'a>>(&mut self, f: &[s::Field<'a, T>]) {
        if f.is_empty() {
            self.p("\n");
            return;
        }
        self.p(" {\n");
        for f in f {
            self.field_def(f, 1);
        }
        self.p("}\n");
    }
    fn input_fields<'a, T: s::Text<'a>>(&mut self, f: &[s::InputValue<'a, T>]) {
        if f.is_empty() {
            self.p("\n");
            return;
        }
        self.p(" {\n");
        for f in f {
            self.ind(1);
            self.input(f, 1);
            self.p("\n");
        }
        self.p("}\n");
    }
    fn enum_values<'a, T: s::Text<'a>>(&mut self, f: &[s::EnumValue<'a, T>]) {
        if f.is_empty() {
            self.p("\n");
            return;
        }
        self.p(" {\n");
        for f in f {
            self.ind(1);
            if let Some(x) = &f.description {
                self.string(x, 1);
                self.p(" ");
            }
            self.p(f.name.as_ref());
            self.dirs(&f.directives, 1);
            self.p("\n");
        }
        self.p("}\n");
    }
    fn head(&mut self, k: &str, n: &str) {
        self.p(k);
        self.p(" ");
        self.p(n);
    }
    fn list<V: AsRef<str>>(&mut self, first: &str, sep: &str, x: &[V]) {
        for (i, n) in x.iter().enumerate() {
            self.p(if i == 0 { first } else { sep });
            self.p(n.as_ref());
        }
    }

    pub fn schema_def<'a, T: s::Text<'a>>(&mut self, d: &s::Definition<'a, T>) {
        use s::Definition as D;
        use s::TypeDefinition as TD;
        use s::TypeExtension as TE;
        match d {
            D::SchemaDefinition(x) => {
                self.p("schema");
                self.dirs(&x.directives, 0);
                self.p(" {\n");
                for (k, v) in [
                    ("query", &x.query),
                    ("mutation", &x.mutation),
                    ("subscription", &x.subscription),
                ] {
                    if let Some(v) = v {
                        let l = format!("{}: {}", k, v.as_ref());
                        self.line(1, &l);
                    }
                }
                self.p("}\n");
            }
            D::TypeDefinition(TD::Scalar(x)) => {
                self.doc_line(&x.description, 0);
                self.head("scalar", x.name.as_ref());
                self.dirs(&x.directives, 0);
                self.p("\n");
            }
            D::TypeExtension(TE::Scalar(x)) => {
                self.head("extend scalar", x.name.as_ref());
                self.dirs(&x.directives, 0);
                self.p("\n");
            }
            D::TypeDefinition(TD::Object(x)) => {
                self.doc_line(&x.description, 0);
                self.head("type", x.name.as_ref());
                self.list(" implements ", " & ", &x.implements_interfaces);
                self.dirs(&x.directives, 0);
                self.fields(&x.fields);
            }
            D::TypeExtension(TE::Object(x)) => {
                self.head("extend type", x.name.as_ref());
                self.list(" implements ", " & ", &x.implements_interfaces);
                self.dirs(&x.directives, 0);
                self.fields(&x.fields);
            }
            D::TypeDefinition(TD::Interface(x)) => {
                self.doc_line(&x.description, 0);
                self.head("interface", x.name.as_ref());
                self.list(" implements ", " & ", &x.implements_interfaces);
                self.dirs(&x.directives, 0);
                self.fields(&x.fields);
            }
            D::TypeExtension(TE::Interface(x)) => {
                self.head("extend interface", x.name.as_ref());
                self.list(" implements ", " & ", &x.implements_interfaces);
                self.dirs(&x.directives, 0);
                self.fields(&x.fields);
            }
            D::TypeDefinition(TD::Union(x)) => {
                self.doc_line(&x.description, 0);
                self.head("union", x.name.as_ref());
                self.dirs(&x.directives, 0);
                self.list(" = ", " | ", &x.types);
                self.p("\n");
            }
            D::TypeExtension(TE::Union(x)) => {
                self.head("extend union", x.name.as_ref());
                self.dirs(&x.directives, 0);
                self.list(" = ", " | ", &x.types);
                self.p("\n");
            }
            D::TypeDefinition(TD::Enum(x)) => {
                self.doc_line(&x.description, 0);
                self.head("enum", x.name.as_ref());
                self.dirs(&x.directives, 0);
                self.enum_values(&x.values);
            }
            D::TypeExtension(TE::Enum(x)) => {
                self.head("extend enum", x.name.as_ref());
                self.dirs(&x.directives, 0);
                self.enum_values(&x.values);
            }
            D::TypeDefinition(TD::InputObject(x)) => {
                self.doc_line(&x.description, 0);
                self.head("input", x.name.as_ref());
                self.dirs(&x.directives, 0);
                self.input_fields(&x.fields);
            }
            D::TypeExtension(TE::InputObject(x)) => {
                self.head("extend input", x.name.as_ref());
                self.dirs(&x.directives, 0);
                self.input_fields(&x.fields);
            }
            D::DirectiveDefinition(x) => {
                self.doc_line(&x.description, 0);
                self.p("directive @");
                self.p(x.name.as_ref());
                self.inputs(&x.arguments, 0);
                if x.repeatable {
                    self.p(" repeatable");
                }
                self.p(" on");
                for (i, l) in x.locations.iter().enumerate() {
                    self.p(if i == 0 { " " } else { " | " });
                    self.p(crate::conv::location(l));
                }
                self.p("\n");
            }
        }
    }

    pub fn done(self) -> String {
        self.out
    }
}

pub fn query<'a, T: q::Text<'a>>(d: &q::Document<'a, T>, w: usize, multi: bool) -> String {
    let mut p = Pr::new(w, multi);
    for (i, d) in d.definitions.iter().enumerate() {
        if i > 0 {
            p.p("\n");
        }
        p.query_def(d);
    }
    p.done()
}

pub fn schema<'a, T: s::Text<'a>>(d: &s::Document<'a, T>, w: usize, multi: bool) -> String {
    let mut p = Pr::new(w, multi);
    for (i, d) in d.definitions.iter().enumerate() {
        if i > 0 {
            p.p("\n");
        }
        p.schema_def(d);
    }
    p.done()
}

pub fn one(f: impl FnOnce(&mut Pr)) -> String {
    let mut p = Pr::new(2, false);
    f(&mut p);
    p.done()
}
