//! ASTs built in code, driven by the characters of a text: choices come from
//! characters and string contents are taken from it as they are.
use crate::rng::mix;
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::Pos;
use std::collections::BTreeMap;

pub struct Src {
    c: Vec<char>,
    i: usize,
    depth: usize,
    n: usize,
}

type V = q::Value<'static, String>;
type Dirs = Vec<q::Directive<'static, String>>;
type Sel = q::SelectionSet<'static, String>;

const NAMES: [&str; 30] = [
    "a", "b", "c", "x1", "_", "__typename", "A", "Query", "on", "query", "mutation", "subscription",
    "fragment", "true", "false", "null", "type", "schema", "extend", "implements", "input", "enum",
    "interface", "union", "scalar", "directive", "repeatable", "QUERY", "e5", "aVeryLongNameWith_123_inIt",
];

impl Src {
    pub fn new(text: &str) -> Src {
        Src {
            c: text.chars().collect(),
            i: 0,
            depth: 0,
            n: 0,
        }
    }
    fn ch(&mut self) -> Option<char> {
        let c = self.c.get(self.i).copied();
        self.i += 1;
        c
    }
    fn more(&self) -> bool {
        self.i < self.c.len()
    }
    /// 0..n, 0 when the text is used up
    fn below(&mut self, n: usize) -> usize {
        match self.ch() {
            None => 0,
            Some(c) => (mix(c as u64 + ((n as u64) << 32)) % n as u64) as usize,
        }
    }
    fn yes(&mut self, of: usize) -> bool {
        self.more() && self.below(of) == 0
    }
    fn count(&mut self) -> usize {
        self.n += 1;
        if !self.more() || self.n > 3000 {
            return 0;
        }
        [0, 0, 1, 1, 1, 2, 2, 3, 4, 7][self.below(10)]
    }
    fn pos(&mut self) -> Pos {
        Pos {
            line: self.i % 7,
            column: self.i % 11,
        }
    }
    pub fn string(&mut self) -> String {
        let k = self.below(16);
        if k >= 12 {
            // a whole piece of prose, if there is one
            let (c, i) = (&self.c, self.i);
            let marks: Vec<usize> = (i..c.len()).filter(|i| c[*i] == '\u{1e}').take(2).collect();
            if let [a, b] = marks[..] {
                let v = c[a + 1..b].iter().collect();
                self.i = b + 1;
                return v;
            }
        }
        let n = match k {
            0 => 0,
            1 => 40,
            2 => 1,
            k => k,
        };
        let mut s = String::new();
        for _ in 0..n {
            match self.ch() {
                Some(c) => s.push(c),
                None => break,
            }
        }
        s
    }
    fn name(&mut self) -> String {
        let k = self.below(NAMES.len() + 5);
        if k < NAMES.len() {
            NAMES[k].to_string()
        } else {
            let n = self.below(4);
            let mut s = String::from("n");
            for _ in 0..n {
                let k = self.below(63);
                s.push(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[k] as char);
            }
            s
        }
    }
    fn int(&mut self) -> i32 {
        match self.below(6) {
            0 => 0,
            1 => [i32::MAX, i32::MIN, -1, 1, i32::MAX - 1, i32::MIN + 1][self.below(6)],
            2 => self.below(1000) as i32 - 500,
            _ => (self.below(65536) as i32) << 16 | self.below(65536) as i32,
        }
    }
    fn float(&mut self) -> f64 {
        match self.below(5) {
            0 => [0.0, -0.0, 1.0, 0.1, -2.5, 1e15, 1e16, 1e17, 1e18, 1e19, 1e21, 1e22, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 9007199254740993.0, 9223372036854775807.0, -9223372036854775808.0, 9223372036854774784.0, 1e-7, 1e-5, 123456789012345680.0, 0.30000000000000004, 1.5e-9, -1e-310][self.below(28)],
            1 => self.below(100000) as f64 / 100.0,
            2 => -(self.below(1000) as f64),
            _ => {
                let mut b = 0u64;
                for _ in 0..4 {
                    b = b << 16 | self.below(65536) as u64;
                }
                let f = f64::from_bits(b);
                if f.is_finite() {
                    f
                } else {
                    0.5
                }
            }
        }
    }

    pub fn value(&mut self, vars: bool) -> V {
        let deep = self.depth < 30;
        match self.below(11) {
            0 => V::Null,
            1 => V::Int(self.int().into()),
            2 => V::Float(self.float()),
            3 => V::Boolean(self.yes(2)),
            4 => V::Enum(self.enum_name()),
            5 if vars => V::Variable(self.name()),
            6 | 7 if deep => {
                self.depth += 1;
                let n = self.count();
                let v = (0..n).map(|_| self.value(vars)).collect();
                self.depth -= 1;
                V::List(v)
            }
            8 if deep => {
                self.depth += 1;
                let n = self.count();
                let v: BTreeMap<String, V> = (0..n)
                    .map(|_| {
                        let k = self.name();
                        (k, self.value(vars))
                    })
                    .collect();
                self.depth -= 1;
                V::Object(v)
            }
            _ => V::String(self.string()),
        }
    }
    fn enum_name(&mut self) -> String {
        let n = self.name();
        match n.as_str() {
            "true" | "false" | "null" => "E".into(),
            _ => n,
        }
    }
    fn args(&mut self) -> Vec<(String, V)> {
        if self.yes(2) {
            let n = self.count();
            (0..n)
                .map(|_| {
                    let k = self.name();
                    (k, self.value(true))
                })
                .collect()
        } else {
            vec![]
        }
    }
    fn dirs(&mut self) -> Dirs {
        if self.yes(3) {
            self.dirs1(0)
        } else {
            vec![]
        }
    }
    fn dirs1(&mut self, least: usize) -> Dirs {
        let n = self.count().max(least);
        (0..n)
            .map(|_| q::Directive {
                position: self.pos(),
                name: self.name(),
                arguments: self.args(),
            })
            .collect()
    }
    fn ty(&mut self, nullable: bool) -> q::Type<'static, String> {
        match self.below(4) {
            3 if self.depth < 30 => {
                self.depth += 1;
                let t = q::Type::ListType(Box::new(self.ty(true)));
                self.depth -= 1;
                t
            }
            1 if nullable => q::Type::NonNullType(Box::new(self.ty(false))),
            _ => q::Type::NamedType(self.name()),
        }
    }
    fn empty_set(&mut self) -> Sel {
        Sel {
            span: (self.pos(), self.pos()),
            items: vec![],
        }
    }
    fn set(&mut self) -> Sel {
        self.depth += 1;
        let n = self.count().max(1);
        let mut s = self.empty_set();
        for _ in 0..n {
            let x = self.selection();
            s.items.push(x);
        }
        self.depth -= 1;
        s
    }
    fn selection(&mut self) -> q::Selection<'static, String> {
        match self.below(6) {
            1 if self.depth < 30 => q::Selection::InlineFragment(q::InlineFragment {
                position: self.pos(),
                type_condition: if self.yes(2) {
                    Some(q::TypeCondition::On(self.name()))
                } else {
                    None
                },
                directives: self.dirs(),
                selection_set: self.set(),
            }),
            2 => q::Selection::FragmentSpread(q::FragmentSpread {
                position: self.pos(),
                fragment_name: match self.name() {
                    n if n == "on" => "On".into(),
                    n => n,
                },
                directives: self.dirs(),
            }),
            _ => q::Selection::Field(q::Field {
                position: self.pos(),
                alias: if self.yes(4) { Some(self.name()) } else { None },
                name: self.name(),
                arguments: self.args(),
                directives: self.dirs(),
                selection_set: if self.depth < 30 && self.yes(3) {
                    self.set()
                } else {
                    self.empty_set()
                },
            }),
        }
    }
    fn vars(&mut self) -> Vec<q::VariableDefinition<'static, String>> {
        if !self.yes(2) {
            return vec![];
        }
        let n = self.count();
        (0..n)
            .map(|_| q::VariableDefinition {
                position: self.pos(),
                name: self.name(),
                var_type: self.ty(true),
                default_value: if self.yes(2) { Some(self.value(false)) } else { None },
            })
            .collect()
    }
    fn op_name(&mut self) -> Option<String> {
        if self.yes(2) {
            Some(self.name())
        } else {
            None
        }
    }
    pub fn query(&mut self) -> q::Document<'static, String> {
        let mut d = vec![];
        loop {
            use q::OperationDefinition as O;
            let x = match self.below(5) {
                0 => q::Definition::Operation(O::SelectionSet(self.set())),
                1 => q::Definition::Operation(O::Query(q::Query {
                    position: self.pos(),
                    name: self.op_name(),
                    variable_definitions: self.vars(),
                    directives: self.dirs(),
                    selection_set: self.set(),
                })),
                2 => q::Definition::Operation(O::Mutation(q::Mutation {
                    position: self.pos(),
                    name: self.op_name(),
                    variable_definitions: self.vars(),
                    directives: self.dirs(),
                    selection_set: self.set(),
                })),
                3 => q::Definition::Operation(O::Subscription(q::Subscription {
                    position: self.pos(),
                    name: self.op_name(),
                    variable_definitions: self.vars(),
                    directives: self.dirs(),
                    selection_set: self.set(),
                })),
                _ => q::Definition::Fragment(q::FragmentDefinition {
                    position: self.pos(),
                    name: match self.name() {
                        n if n == "on" => "On".into(),
                        n => n,
                    },
                    type_condition: q::TypeCondition::On(self.name()),
                    directives: self.dirs(),
                    selection_set: self.set(),
                }),
            };
            d.push(x);
            if !self.more() || d.len() > 200 {
                return q::Document { definitions: d };
            }
        }
    }

    // ---- schema

    fn desc(&mut self) -> Option<String> {
        if self.yes(2) {
            Some(self.string())
        } else {
            None
        }
    }
    fn input(&mut self) -> s::InputValue<'static, String> {
        s::InputValue {
            position: self.pos(),
            description: self.desc(),
            name: self.name(),
            value_type: self.ty(true),
            default_value: if self.yes(2) { Some(self.value(false)) } else { None },
            directives: self.dirs(),
        }
    }
    fn inputs(&mut self, least: usize) -> Vec<s::InputValue<'static, String>> {
        let n = self.count().max(least);
        (0..n).map(|_| self.input()).collect()
    }
    fn fields(&mut self, least: usize) -> Vec<s::Field<'static, String>> {
        let n = self.count().max(least);
        (0..n)
            .map(|_| s::Field {
                position: self.pos(),
                description: self.desc(),
                name: self.name(),
                arguments: if self.yes(2) { self.inputs(0) } else { vec![] },
                field_type: self.ty(true),
                directives: self.dirs(),
            })
            .collect()
    }
    fn enum_values(&mut self, least: usize) -> Vec<s::EnumValue<'static, String>> {
        let n = self.count().max(least);
        (0..n)
            .map(|_| s::EnumValue {
                position: self.pos(),
                description: self.desc(),
                name: self.enum_name(),
                directives: self.dirs(),
            })
            .collect()
    }
    fn names(&mut self, least: usize) -> Vec<String> {
        let n = self.count().max(least);
        (0..n).map(|_| self.name()).collect()
    }
    pub fn schema(&mut self) -> s::Document<'static, String> {
        use s::Definition as D;
        use s::TypeDefinition as TD;
        use s::TypeExtension as TE;
        let mut out = vec![];
        loop {
            let x = match self.below(14) {
                0 => D::SchemaDefinition(s::SchemaDefinition {
                    position: self.pos(),
                    directives: self.dirs(),
                    query: Some(self.name()),
                    mutation: self.op_name(),
                    subscription: self.op_name(),
                }),
                1 => {
                    let mut x = s::ScalarType::new(self.name());
                    x.description = self.desc();
                    x.directives = self.dirs();
                    D::TypeDefinition(TD::Scalar(x))
                }
                2 => {
                    let mut x = s::ObjectType::new(self.name());
                    x.description = self.desc();
                    x.implements_interfaces = self.names(0);
                    x.directives = self.dirs();
                    x.fields = self.fields(0);
                    D::TypeDefinition(TD::Object(x))
                }
                3 => {
                    let mut x = s::InterfaceType::new(self.name());
                    x.description = self.desc();
                    x.implements_interfaces = self.names(0);
                    x.directives = self.dirs();
                    x.fields = self.fields(0);
                    D::TypeDefinition(TD::Interface(x))
                }
                4 => {
                    let mut x = s::UnionType::new(self.name());
                    x.description = self.desc();
                    x.directives = self.dirs();
                    x.types = self.names(0);
                    D::TypeDefinition(TD::Union(x))
                }
                5 => {
                    let mut x = s::EnumType::new(self.name());
                    x.description = self.desc();
                    x.directives = self.dirs();
                    x.values = self.enum_values(0);
                    D::TypeDefinition(TD::Enum(x))
                }
                6 => {
                    let mut x = s::InputObjectType::new(self.name());
                    x.description = self.desc();
                    x.directives = self.dirs();
                    x.fields = self.inputs(0);
                    D::TypeDefinition(TD::InputObject(x))
                }
                7 => {
                    let mut x = s::ScalarTypeExtension::new(self.name());
                    x.directives = self.dirs1(1);
                    D::TypeExtension(TE::Scalar(x))
                }
                8 => {
                    let mut x = s::ObjectTypeExtension::new(self.name());
                    x.implements_interfaces = self.names(0);
                    x.directives = self.dirs();
                    x.fields = self.fields(1);
                    D::TypeExtension(TE::Object(x))
                }
                9 => {
                    let mut x = s::InterfaceTypeExtension::new(self.name());
                    x.implements_interfaces = self.names(1);
                    x.directives = self.dirs();
                    x.fields = self.fields(0);
                    D::TypeExtension(TE::Interface(x))
                }
                10 => {
                    let mut x = s::UnionTypeExtension::new(self.name());
                    x.directives = self.dirs();
                    x.types = self.names(1);
                    D::TypeExtension(TE::Union(x))
                }
                11 => {
                    let mut x = s::EnumTypeExtension::new(self.name());
                    x.directives = self.dirs();
                    x.values = self.enum_values(1);
                    D::TypeExtension(TE::Enum(x))
                }
                12 => {
                    let mut x = s::InputObjectTypeExtension::new(self.name());
                    x.directives = self.dirs();
                    x.fields = self.inputs(1);
                    D::TypeExtension(TE::InputObject(x))
                }
                _ => {
                    let mut x = s::DirectiveDefinition::new(self.name());
                    x.description = self.desc();
                    x.arguments = self.inputs(0);
                    x.repeatable = self.yes(2);
                    let n = self.count().max(1);
                    x.locations = (0..n).map(|_| location(self.below(19))).collect();
                    D::DirectiveDefinition(x)
                }
            };
            out.push(x);
            if !self.more() || out.len() > 200 {
                return s::Document { definitions: out };
            }
        }
    }
}

pub fn location(i: usize) -> s::DirectiveLocation {
    use s::DirectiveLocation::*;
    [
        Query,
        Mutation,
        Subscription,
        Field,
        FragmentDefinition,
        FragmentSpread,
        InlineFragment,
        Schema,
        Scalar,
        Object,
        FieldDefinition,
        ArgumentDefinition,
        Interface,
        Union,
        Enum,
        EnumValue,
        InputObject,
        InputFieldDefinition,
        VariableDefinition,
    ][i]
        .clone()
}

/// One document with the same string at every place a string value can stand
pub fn query_with(t: &str) -> q::Document<'static, String> {
    let v = || V::String(t.to_string());
    let p = Pos::default();
    let list = V::List(vec![v(), V::Null, v()]);
    let obj = V::Object(
        [("k".to_string(), v()), ("l".to_string(), V::List(vec![v()]))]
            .into_iter()
            .collect(),
    );
    let dir = |n: &str, v: V| q::Directive {
        position: p,
        name: n.into(),
        arguments: vec![("x".to_string(), v), ("y".to_string(), V::Boolean(true))],
    };
    let empty = Sel {
        span: (p, p),
        items: vec![],
    };
    let field = |n: &str, args: Vec<(String, V)>, dirs: Dirs, set: Sel| {
        q::Selection::Field(q::Field {
            position: p,
            alias: None,
            name: n.into(),
            arguments: args,
            directives: dirs,
            selection_set: set,
        })
    };
    let inner = Sel {
        span: (p, p),
        items: vec![
            field("f", vec![("a".into(), v())], vec![dir("d", obj.clone())], empty.clone()),
            q::Selection::FragmentSpread(q::FragmentSpread {
                position: p,
                fragment_name: "F".into(),
                directives: vec![dir("e", v())],
            }),
        ],
    };
    q::Document {
        definitions: vec![
            q::Definition::Operation(q::OperationDefinition::Query(q::Query {
                position: p,
                name: None,
                variable_definitions: vec![
                    q::VariableDefinition {
                        position: p,
                        name: "v".into(),
                        var_type: q::Type::NamedType("T".into()),
                        default_value: Some(v()),
                    },
                    q::VariableDefinition {
                        position: p,
                        name: "w".into(),
                        var_type: q::Type::NamedType("T".into()),
                        default_value: Some(obj.clone()),
                    },
                ],
                directives: vec![dir("d", v())],
                selection_set: Sel {
                    span: (p, p),
                    items: vec![
                        field("a", vec![("b".into(), list), ("c".into(), obj)], vec![], inner.clone()),
                        q::Selection::InlineFragment(q::InlineFragment {
                            position: p,
                            type_condition: None,
                            directives: vec![dir("g", v())],
                            selection_set: inner.clone(),
                        }),
                    ],
                },
            })),
            q::Definition::Fragment(q::FragmentDefinition {
                position: p,
                name: "F".into(),
                type_condition: q::TypeCondition::On("T".into()),
                directives: vec![dir("h", v())],
                selection_set: inner,
            }),
        ],
    }
}

/// One schema with the same string as every description and value
pub fn schema_with(t: &str) -> s::Document<'static, String> {
    let v = || V::String(t.to_string());
    let d = || Some(t.to_string());
    let p = Pos::default();
    let dir = |v: V| q::Directive {
        position: p,
        name: "d".into(),
        arguments: vec![("x".to_string(), v)],
    };
    let input = |n: &str| s::InputValue {
        position: p,
        description: d(),
        name: n.into(),
        value_type: q::Type::NamedType("T".into()),
        default_value: Some(V::List(vec![v()])),
        directives: vec![dir(v())],
    };
    let field = || s::Field {
        position: p,
        description: d(),
        name: "f".into(),
        arguments: vec![input("a"), input("b")],
        field_type: q::Type::NamedType("T".into()),
        directives: vec![dir(v())],
    };
    let value = |n: &str| s::EnumValue {
        position: p,
        description: d(),
        name: n.into(),
        directives: vec![dir(v())],
    };
    let mut scalar = s::ScalarType::new("A".to_string());
    scalar.description = d();
    let mut object = s::ObjectType::new("B".to_string());
    object.description = d();
    object.fields = vec![field(), field()];
    let mut interface = s::InterfaceType::new("C".to_string());
    interface.description = d();
    interface.directives = vec![dir(v())];
    interface.fields = vec![field()];
    let mut union = s::UnionType::new("D".to_string());
    union.description = d();
    union.types = vec!["A".into()];
    let mut en = s::EnumType::new("E".to_string());
    en.description = d();
    en.values = vec![value("X"), value("Y")];
    let mut inp = s::InputObjectType::new("F".to_string());
    inp.description = d();
    inp.fields = vec![input("a"), input("b")];
    let mut dd = s::DirectiveDefinition::new("d".to_string());
    dd.description = d();
    dd.arguments = vec![input("a")];
    dd.locations = vec![location(3)];
    use s::Definition as D;
    use s::TypeDefinition as TD;
    s::Document {
        definitions: vec![
            D::TypeDefinition(TD::Scalar(scalar)),
            D::TypeDefinition(TD::Object(object)),
            D::TypeDefinition(TD::Interface(interface)),
            D::TypeDefinition(TD::Union(union)),
            D::TypeDefinition(TD::Enum(en)),
            D::TypeDefinition(TD::InputObject(inp)),
            D::DirectiveDefinition(dd),
        ],
    }
}
