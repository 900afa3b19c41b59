//! Q01 on single nodes: ==, != and clone_from of every kind of node, each by
//! itself (a document's own comparison does not call all of its nodes' methods).
use crate::checks::{Mon, Verdict};
use crate::conv;
use crate::equal::same;
use crate::ev::{diff, Ev, Trace};
use crate::lib_api::*;
use crate::rng::Rng;
use graphql_parser::query as q;
use graphql_parser::schema as s;

type V<'a> = &'a str;

macro_rules! kinds {
    ($($f:ident : $t:ty = $w:expr;)*) => {
        /// nodes by kind
        #[derive(Default)]
        pub struct Nodes<'x, 'a> { $($f: Vec<&'x $t>,)* }
        pub fn judge<'x, 'a>(n: &Nodes<'x, 'a>, r: &mut Rng, m: &mut Mon) -> Verdict {
            $( kind(stringify!($f), &n.$f, $w, r, m)?; )*
            Ok(())
        }
    };
}

fn sel<'a>(x: q::Selection<'a, V<'a>>) -> Trace {
    let mut o = Vec::new();
    conv::set(&mut o, &q::SelectionSet { span: Default::default(), items: vec![x] });
    o
}
fn qdef<'a>(x: q::Definition<'a, V<'a>>) -> Trace {
    let mut o = Vec::new();
    conv::query_def(&mut o, &x);
    o
}
fn sdef<'a>(x: s::Definition<'a, V<'a>>) -> Trace {
    let mut o = Vec::new();
    conv::schema_def(&mut o, &x);
    o
}
fn of<N>(x: N, f: impl Fn(&mut Trace, &N)) -> Trace {
    let mut o = Vec::new();
    f(&mut o, &x);
    o
}
use q::OperationDefinition as OD;
use s::TypeDefinition as TD;
use s::TypeExtension as TE;

kinds! {
    value: q::Value<'a, V<'a>> = |x| of(x, conv::value);
    typ: q::Type<'a, V<'a>> = |x| of(x, conv::ty);
    directive: q::Directive<'a, V<'a>> = |x| of(x, |o, x| conv::dirs(o, std::slice::from_ref(x)));
    condition: q::TypeCondition<'a, V<'a>> = |q::TypeCondition::On(n)| vec![Ev::S("on", n.to_string())];
    selection: q::Selection<'a, V<'a>> = sel;
    field: q::Field<'a, V<'a>> = |x| sel(q::Selection::Field(x));
    spread: q::FragmentSpread<'a, V<'a>> = |x| sel(q::Selection::FragmentSpread(x));
    inline: q::InlineFragment<'a, V<'a>> = |x| sel(q::Selection::InlineFragment(x));
    set: q::SelectionSet<'a, V<'a>> = |x| of(x, conv::set);
    variable: q::VariableDefinition<'a, V<'a>> = |x| of(x, |o, x| conv::variables(o, std::slice::from_ref(x)));
    query: q::Query<'a, V<'a>> = |x| qdef(q::Definition::Operation(OD::Query(x)));
    mutation: q::Mutation<'a, V<'a>> = |x| qdef(q::Definition::Operation(OD::Mutation(x)));
    subscription: q::Subscription<'a, V<'a>> = |x| qdef(q::Definition::Operation(OD::Subscription(x)));
    operation: OD<'a, V<'a>> = |x| qdef(q::Definition::Operation(x));
    fragment: q::FragmentDefinition<'a, V<'a>> = |x| qdef(q::Definition::Fragment(x));
    definition: q::Definition<'a, V<'a>> = qdef;
    input_value: s::InputValue<'a, V<'a>> = |x| of(x, conv::input);
    field_def: s::Field<'a, V<'a>> = |x| of(x, |o, x| conv::fields(o, std::slice::from_ref(x)));
    enum_value: s::EnumValue<'a, V<'a>> = |x| of(x, |o, x| conv::enum_values(o, std::slice::from_ref(x)));
    location: s::DirectiveLocation = |x| vec![Ev::S("location", conv::location(&x).to_string())];
    schema: s::SchemaDefinition<'a, V<'a>> = |x| sdef(s::Definition::SchemaDefinition(x));
    directive_def: s::DirectiveDefinition<'a, V<'a>> = |x| sdef(s::Definition::DirectiveDefinition(x));
    scalar: s::ScalarType<'a, V<'a>> = |x| sdef(s::Definition::TypeDefinition(TD::Scalar(x)));
    object: s::ObjectType<'a, V<'a>> = |x| sdef(s::Definition::TypeDefinition(TD::Object(x)));
    interface: s::InterfaceType<'a, V<'a>> = |x| sdef(s::Definition::TypeDefinition(TD::Interface(x)));
    union: s::UnionType<'a, V<'a>> = |x| sdef(s::Definition::TypeDefinition(TD::Union(x)));
    enumeration: s::EnumType<'a, V<'a>> = |x| sdef(s::Definition::TypeDefinition(TD::Enum(x)));
    input: s::InputObjectType<'a, V<'a>> = |x| sdef(s::Definition::TypeDefinition(TD::InputObject(x)));
    ext_scalar: s::ScalarTypeExtension<'a, V<'a>> = |x| sdef(s::Definition::TypeExtension(TE::Scalar(x)));
    ext_object: s::ObjectTypeExtension<'a, V<'a>> = |x| sdef(s::Definition::TypeExtension(TE::Object(x)));
    ext_interface: s::InterfaceTypeExtension<'a, V<'a>> = |x| sdef(s::Definition::TypeExtension(TE::Interface(x)));
    ext_union: s::UnionTypeExtension<'a, V<'a>> = |x| sdef(s::Definition::TypeExtension(TE::Union(x)));
    ext_enum: s::EnumTypeExtension<'a, V<'a>> = |x| sdef(s::Definition::TypeExtension(TE::Enum(x)));
    ext_input: s::InputObjectTypeExtension<'a, V<'a>> = |x| sdef(s::Definition::TypeExtension(TE::InputObject(x)));
    type_def: TD<'a, V<'a>> = |x| sdef(s::Definition::TypeDefinition(x));
    type_ext: TE<'a, V<'a>> = |x| sdef(s::Definition::TypeExtension(x));
    schema_def: s::Definition<'a, V<'a>> = sdef;
}

fn kind<N: PartialEq + Clone>(what: &str, all: &[&N], trace: impl Fn(N) -> Trace, r: &mut Rng, m: &mut Mon) -> Verdict {
    if all.is_empty() {
        return Ok(());
    }
    // some of them, each with some others
    let few: Vec<&N> = if all.len() <= 5 { all.to_vec() } else { (0..5).map(|_| *r.pick(all)).collect() };
    let traces: Vec<Trace> = few.iter().map(|x| trace(lib(|| (*x).clone()))).collect();
    for (i, a) in few.iter().enumerate() {
        for (j, b) in few.iter().enumerate() {
            let want = same(&traces[i], &traces[j]);
            #[allow(clippy::nonminimal_bool)]
            let (eq, ne) = lib(|| (*a == *b, *a != *b));
            m.see("nodes compared");
            if eq != want || ne == want {
                return Err(format!(
                    "two nodes ({}): == says {}, != says {}; {}",
                    what,
                    eq,
                    ne,
                    diff(&traces[i], &traces[j], false).map_or("they agree in everything".into(), |d| format!("they differ: {}", d))
                ));
            }
            if (i + j) % 3 == 1 {
                let mut c = lib(|| (*a).clone());
                lib(|| c.clone_from(b));
                m.see("nodes overwritten by a clone");
                if let Some(d) = diff(&traces[j], &trace(c), false) {
                    return Err(format!("clone_from on a node ({}) that was another: {}", what, d));
                }
            }
        }
    }
    Ok(())
}

impl<'x, 'a> Nodes<'x, 'a> {
    fn val(&mut self, v: &'x q::Value<'a, V<'a>>) {
        self.value.push(v);
        match v {
            q::Value::List(l) => l.iter().for_each(|x| self.val(x)),
            q::Value::Object(o) => o.values().for_each(|x| self.val(x)),
            _ => {}
        }
    }
    fn ty(&mut self, t: &'x q::Type<'a, V<'a>>) {
        self.typ.push(t);
        if let q::Type::ListType(t) | q::Type::NonNullType(t) = t {
            self.ty(t)
        }
    }
    fn dirs(&mut self, d: &'x [q::Directive<'a, V<'a>>]) {
        for d in d {
            self.directive.push(d);
            d.arguments.iter().for_each(|a| self.val(&a.1));
        }
    }
    fn sels(&mut self, x: &'x q::SelectionSet<'a, V<'a>>) {
        self.set.push(x);
        for i in &x.items {
            self.selection.push(i);
            match i {
                q::Selection::Field(f) => {
                    self.field.push(f);
                    f.arguments.iter().for_each(|a| self.val(&a.1));
                    self.dirs(&f.directives);
                    self.sels(&f.selection_set);
                }
                q::Selection::FragmentSpread(f) => {
                    self.spread.push(f);
                    self.dirs(&f.directives);
                }
                q::Selection::InlineFragment(f) => {
                    self.inline.push(f);
                    self.condition.extend(&f.type_condition);
                    self.dirs(&f.directives);
                    self.sels(&f.selection_set);
                }
            }
        }
    }
    fn vars(&mut self, x: &'x [q::VariableDefinition<'a, V<'a>>]) {
        for v in x {
            self.variable.push(v);
            self.ty(&v.var_type);
            v.default_value.iter().for_each(|d| self.val(d));
        }
    }
    fn inputs(&mut self, x: &'x [s::InputValue<'a, V<'a>>]) {
        for v in x {
            self.input_value.push(v);
            self.ty(&v.value_type);
            v.default_value.iter().for_each(|d| self.val(d));
            self.dirs(&v.directives);
        }
    }
    fn fields(&mut self, x: &'x [s::Field<'a, V<'a>>]) {
        for f in x {
            self.field_def.push(f);
            self.inputs(&f.arguments);
            self.ty(&f.field_type);
            self.dirs(&f.directives);
        }
    }
    fn values(&mut self, x: &'x [s::EnumValue<'a, V<'a>>]) {
        for v in x {
            self.enum_value.push(v);
            self.dirs(&v.directives);
        }
    }
    pub fn doc(&mut self, d: &'x Doc<'a, V<'a>>) {
        match d {
            Doc::Q(d) => d.definitions.iter().for_each(|x| self.query_def(x)),
            Doc::S(d) => d.definitions.iter().for_each(|x| self.s_def(x)),
        }
    }
    fn query_def(&mut self, x: &'x q::Definition<'a, V<'a>>) {
        self.definition.push(x);
        match x {
            q::Definition::Operation(o) => {
                self.operation.push(o);
                match o {
                    OD::SelectionSet(s) => self.sels(s),
                    OD::Query(x) => {
                        self.query.push(x);
                        self.vars(&x.variable_definitions);
                        self.dirs(&x.directives);
                        self.sels(&x.selection_set);
                    }
                    OD::Mutation(x) => {
                        self.mutation.push(x);
                        self.vars(&x.variable_definitions);
                        self.dirs(&x.directives);
                        self.sels(&x.selection_set);
                    }
                    OD::Subscription(x) => {
                        self.subscription.push(x);
                        self.vars(&x.variable_definitions);
                        self.dirs(&x.directives);
                        self.sels(&x.selection_set);
                    }
                }
            }
            q::Definition::Fragment(f) => {
                self.fragment.push(f);
                self.condition.push(&f.type_condition);
                self.dirs(&f.directives);
                self.sels(&f.selection_set);
            }
        }
    }
    fn s_def(&mut self, x: &'x s::Definition<'a, V<'a>>) {
        self.schema_def.push(x);
        match x {
            s::Definition::SchemaDefinition(x) => {
                self.schema.push(x);
                self.dirs(&x.directives);
            }
            s::Definition::DirectiveDefinition(x) => {
                self.directive_def.push(x);
                self.inputs(&x.arguments);
                self.location.extend(&x.locations);
            }
            s::Definition::TypeDefinition(t) => {
                self.type_def.push(t);
                match t {
                    TD::Scalar(x) => {
                        self.scalar.push(x);
                        self.dirs(&x.directives);
                    }
                    TD::Object(x) => {
                        self.object.push(x);
                        self.dirs(&x.directives);
                        self.fields(&x.fields);
                    }
                    TD::Interface(x) => {
                        self.interface.push(x);
                        self.dirs(&x.directives);
                        self.fields(&x.fields);
                    }
                    TD::Union(x) => {
                        self.union.push(x);
                        self.dirs(&x.directives);
                    }
                    TD::Enum(x) => {
                        self.enumeration.push(x);
                        self.dirs(&x.directives);
                        self.values(&x.values);
                    }
                    TD::InputObject(x) => {
                        self.input.push(x);
                        self.dirs(&x.directives);
                        self.inputs(&x.fields);
                    }
                }
            }
            s::Definition::TypeExtension(t) => {
                self.type_ext.push(t);
                match t {
                    TE::Scalar(x) => {
                        self.ext_scalar.push(x);
                        self.dirs(&x.directives);
                    }
                    TE::Object(x) => {
                        self.ext_object.push(x);
                        self.dirs(&x.directives);
                        self.fields(&x.fields);
                    }
                    TE::Interface(x) => {
                        self.ext_interface.push(x);
                        self.dirs(&x.directives);
                        self.fields(&x.fields);
                    }
                    TE::Union(x) => {
                        self.ext_union.push(x);
                        self.dirs(&x.directives);
                    }
                    TE::Enum(x) => {
                        self.ext_enum.push(x);
                        self.dirs(&x.directives);
                        self.values(&x.values);
                    }
                    TE::InputObject(x) => {
                        self.ext_input.push(x);
                        self.dirs(&x.directives);
                        self.inputs(&x.fields);
                    }
                }
            }
        }
    }
}
