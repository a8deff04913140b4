//! Dump of the library's ASTs.
use crate::d;
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::Pos;
use q::{Text, Type, Value};

fn p(x: Pos) -> d::P {
    (x.line as u32, x.column as u32)
}

/// known finding K2: a float whose printed form is an integer literal
pub fn k2(f: f64) -> Option<i64> {
    if f.fract() == 0.0 {
        format!("{}", f).parse::<i64>().ok()
    } else {
        None
    }
}

#[derive(Clone, Copy, Default)]
pub struct Opt {
    pub k2: bool,
}

pub fn value<'a, T: Text<'a>>(v: &Value<'a, T>, o: Opt) -> String {
    match v {
        Value::Variable(n) => d::var(n.as_ref()),
        Value::Int(n) => match n.as_i64() {
            Some(i) => d::int(i),
            None => "Int(?)".into(),
        },
        Value::Float(f) => match k2(*f) {
            Some(i) if o.k2 => d::int(i),
            _ => d::float(*f),
        },
        Value::String(x) => d::string(x),
        Value::Boolean(b) => d::boolean(*b),
        Value::Null => d::null(),
        Value::Enum(n) => d::enum_(n.as_ref()),
        Value::List(l) => d::lst(&l.iter().map(|x| value(x, o)).collect::<Vec<_>>()),
        Value::Object(m) => d::obj(
            &m.iter()
                .map(|(k, x)| (k.as_ref().to_string(), value(x, o)))
                .collect::<Vec<_>>(),
        ),
    }
}

pub fn ty<'a, T: Text<'a>>(t: &Type<'a, T>) -> String {
    match t {
        Type::NamedType(n) => n.as_ref().to_string(),
        Type::ListType(x) => format!("[{}]", ty(x)),
        Type::NonNullType(x) => format!("{}!", ty(x)),
    }
}

pub fn args<'a, T: Text<'a>>(a: &[(T::Value, Value<'a, T>)], o: Opt) -> String {
    d::args(
        &a.iter()
            .map(|(k, v)| (k.as_ref().to_string(), value(v, o)))
            .collect::<Vec<_>>(),
    )
}

pub fn directive<'a, T: Text<'a>>(x: &q::Directive<'a, T>, o: Opt) -> String {
    d::directive(p(x.position), x.name.as_ref(), &args::<T>(&x.arguments, o))
}

pub fn dirs<'a, T: Text<'a>>(x: &[q::Directive<'a, T>], o: Opt) -> String {
    d::list(&x.iter().map(|x| directive(x, o)).collect::<Vec<_>>())
}

pub fn selset<'a, T: Text<'a>>(x: &q::SelectionSet<'a, T>, o: Opt) -> String {
    d::selset(
        p(x.span.0),
        p(x.span.1),
        &x.items.iter().map(|x| selection(x, o)).collect::<Vec<_>>(),
    )
}

pub fn qfield<'a, T: Text<'a>>(f: &q::Field<'a, T>, o: Opt) -> String {
    d::field(
        p(f.position),
        f.alias.as_ref().map(|x| x.as_ref()),
        f.name.as_ref(),
        &args::<T>(&f.arguments, o),
        &dirs(&f.directives, o),
        &selset(&f.selection_set, o),
    )
}

pub fn spread<'a, T: Text<'a>>(f: &q::FragmentSpread<'a, T>, o: Opt) -> String {
    d::spread(p(f.position), f.fragment_name.as_ref(), &dirs(&f.directives, o))
}

pub fn cond<'a, 'b, T: Text<'a>>(c: &'b q::TypeCondition<'a, T>) -> &'b str {
    match c {
        q::TypeCondition::On(x) => x.as_ref(),
    }
}

pub fn inline<'a, T: Text<'a>>(f: &q::InlineFragment<'a, T>, o: Opt) -> String {
    d::inline(
        p(f.position),
        f.type_condition.as_ref().map(cond),
        &dirs(&f.directives, o),
        &selset(&f.selection_set, o),
    )
}

pub fn selection<'a, T: Text<'a>>(x: &q::Selection<'a, T>, o: Opt) -> String {
    match x {
        q::Selection::Field(f) => qfield(f, o),
        q::Selection::FragmentSpread(f) => spread(f, o),
        q::Selection::InlineFragment(f) => inline(f, o),
    }
}

pub fn vardef<'a, T: Text<'a>>(v: &q::VariableDefinition<'a, T>, o: Opt) -> String {
    d::vardef(
        p(v.position),
        v.name.as_ref(),
        &ty(&v.var_type),
        v.default_value.as_ref().map(|x| value(x, o)).as_deref(),
    )
}

fn vars<'a, T: Text<'a>>(v: &[q::VariableDefinition<'a, T>], o: Opt) -> String {
    d::list(&v.iter().map(|x| vardef(x, o)).collect::<Vec<_>>())
}

pub fn qdef<'a, T: Text<'a>>(x: &q::Definition<'a, T>, o: Opt) -> String {
    use q::OperationDefinition as O;
    match x {
        q::Definition::Operation(O::SelectionSet(s)) => d::anon(&selset(s, o)),
        q::Definition::Operation(O::Query(x)) => d::op(
            "query",
            p(x.position),
            x.name.as_ref().map(|x| x.as_ref()),
            &vars(&x.variable_definitions, o),
            &dirs(&x.directives, o),
            &selset(&x.selection_set, o),
        ),
        q::Definition::Operation(O::Mutation(x)) => d::op(
            "mutation",
            p(x.position),
            x.name.as_ref().map(|x| x.as_ref()),
            &vars(&x.variable_definitions, o),
            &dirs(&x.directives, o),
            &selset(&x.selection_set, o),
        ),
        q::Definition::Operation(O::Subscription(x)) => d::op(
            "subscription",
            p(x.position),
            x.name.as_ref().map(|x| x.as_ref()),
            &vars(&x.variable_definitions, o),
            &dirs(&x.directives, o),
            &selset(&x.selection_set, o),
        ),
        q::Definition::Fragment(f) => d::fragment(
            p(f.position),
            f.name.as_ref(),
            cond(&f.type_condition),
            &dirs(&f.directives, o),
            &selset(&f.selection_set, o),
        ),
    }
}

pub fn qdoc<'a, T: Text<'a>>(x: &q::Document<'a, T>, o: Opt) -> String {
    x.definitions.iter().map(|x| qdef(x, o) + "\n").collect()
}

// ---- schema

pub fn input<'a, T: Text<'a>>(x: &s::InputValue<'a, T>, o: Opt) -> String {
    d::input(
        p(x.position),
        x.description.as_deref(),
        x.name.as_ref(),
        &ty(&x.value_type),
        x.default_value.as_ref().map(|x| value(x, o)).as_deref(),
        &dirs(&x.directives, o),
    )
}
fn inputs<'a, T: Text<'a>>(x: &[s::InputValue<'a, T>], o: Opt) -> String {
    d::list(&x.iter().map(|x| input(x, o)).collect::<Vec<_>>())
}
pub fn sfield<'a, T: Text<'a>>(x: &s::Field<'a, T>, o: Opt) -> String {
    d::sfield(
        p(x.position),
        x.description.as_deref(),
        x.name.as_ref(),
        &inputs(&x.arguments, o),
        &ty(&x.field_type),
        &dirs(&x.directives, o),
    )
}
fn sfields<'a, T: Text<'a>>(x: &[s::Field<'a, T>], o: Opt) -> String {
    d::list(&x.iter().map(|x| sfield(x, o)).collect::<Vec<_>>())
}
fn enumvals<'a, T: Text<'a>>(x: &[s::EnumValue<'a, T>], o: Opt) -> String {
    d::list(
        &x.iter()
            .map(|x| d::enumval(p(x.position), x.description.as_deref(), x.name.as_ref(), &dirs(&x.directives, o)))
            .collect::<Vec<_>>(),
    )
}
pub fn locname(l: &s::DirectiveLocation) -> &'static str {
    use s::DirectiveLocation as L;
    match l {
        L::Query => "QUERY",
        L::Mutation => "MUTATION",
        L::Subscription => "SUBSCRIPTION",
        L::Field => "FIELD",
        L::FragmentDefinition => "FRAGMENT_DEFINITION",
        L::FragmentSpread => "FRAGMENT_SPREAD",
        L::InlineFragment => "INLINE_FRAGMENT",
        L::Schema => "SCHEMA",
        L::Scalar => "SCALAR",
        L::Object => "OBJECT",
        L::FieldDefinition => "FIELD_DEFINITION",
        L::ArgumentDefinition => "ARGUMENT_DEFINITION",
        L::Interface => "INTERFACE",
        L::Union => "UNION",
        L::Enum => "ENUM",
        L::EnumValue => "ENUM_VALUE",
        L::InputObject => "INPUT_OBJECT",
        L::InputFieldDefinition => "INPUT_FIELD_DEFINITION",
        L::VariableDefinition => "VARIABLE_DEFINITION",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}
fn nm<'a, T: Text<'a>>(x: &[T::Value]) -> String {
    d::names(x.iter().map(|x| x.as_ref()))
}

pub fn m_object(imp: &str, dirs: &str, fields: &str) -> String {
    format!("impl={} dirs={} fields={}", imp, dirs, fields)
}
pub fn m_dirs(dirs: &str) -> String {
    format!("dirs={}", dirs)
}
pub fn m_union(dirs: &str, types: &str) -> String {
    format!("dirs={} types={}", dirs, types)
}
pub fn m_enum(dirs: &str, vals: &str) -> String {
    format!("dirs={} values={}", dirs, vals)
}
pub fn m_input(dirs: &str, fields: &str) -> String {
    format!("dirs={} fields={}", dirs, fields)
}

pub fn sdef<'a, T: Text<'a>>(x: &s::Definition<'a, T>, o: Opt) -> String {
    use s::Definition as D;
    use s::TypeDefinition as TD;
    use s::TypeExtension as TE;
    match x {
        D::SchemaDefinition(x) => d::schemadef(
            p(x.position),
            &dirs(&x.directives, o),
            x.query.as_ref().map(|x| x.as_ref()),
            x.mutation.as_ref().map(|x| x.as_ref()),
            x.subscription.as_ref().map(|x| x.as_ref()),
        ),
        D::TypeDefinition(TD::Scalar(x)) => d::typedef(
            "Scalar", false, p(x.position), Some(x.description.as_deref()), x.name.as_ref(),
            &m_dirs(&dirs(&x.directives, o)),
        ),
        D::TypeDefinition(TD::Object(x)) => d::typedef(
            "Object", false, p(x.position), Some(x.description.as_deref()), x.name.as_ref(),
            &m_object(&nm::<T>(&x.implements_interfaces), &dirs(&x.directives, o), &sfields(&x.fields, o)),
        ),
        D::TypeDefinition(TD::Interface(x)) => d::typedef(
            "Interface", false, p(x.position), Some(x.description.as_deref()), x.name.as_ref(),
            &m_object(&nm::<T>(&x.implements_interfaces), &dirs(&x.directives, o), &sfields(&x.fields, o)),
        ),
        D::TypeDefinition(TD::Union(x)) => d::typedef(
            "Union", false, p(x.position), Some(x.description.as_deref()), x.name.as_ref(),
            &m_union(&dirs(&x.directives, o), &nm::<T>(&x.types)),
        ),
        D::TypeDefinition(TD::Enum(x)) => d::typedef(
            "Enum", false, p(x.position), Some(x.description.as_deref()), x.name.as_ref(),
            &m_enum(&dirs(&x.directives, o), &enumvals(&x.values, o)),
        ),
        D::TypeDefinition(TD::InputObject(x)) => d::typedef(
            "Input", false, p(x.position), Some(x.description.as_deref()), x.name.as_ref(),
            &m_input(&dirs(&x.directives, o), &inputs(&x.fields, o)),
        ),
        D::TypeExtension(TE::Scalar(x)) => d::typedef(
            "Scalar", true, p(x.position), None, x.name.as_ref(),
            &m_dirs(&dirs(&x.directives, o)),
        ),
        D::TypeExtension(TE::Object(x)) => d::typedef(
            "Object", true, p(x.position), None, x.name.as_ref(),
            &m_object(&nm::<T>(&x.implements_interfaces), &dirs(&x.directives, o), &sfields(&x.fields, o)),
        ),
        D::TypeExtension(TE::Interface(x)) => d::typedef(
            "Interface", true, p(x.position), None, x.name.as_ref(),
            &m_object(&nm::<T>(&x.implements_interfaces), &dirs(&x.directives, o), &sfields(&x.fields, o)),
        ),
        D::TypeExtension(TE::Union(x)) => d::typedef(
            "Union", true, p(x.position), None, x.name.as_ref(),
            &m_union(&dirs(&x.directives, o), &nm::<T>(&x.types)),
        ),
        D::TypeExtension(TE::Enum(x)) => d::typedef(
            "Enum", true, p(x.position), None, x.name.as_ref(),
            &m_enum(&dirs(&x.directives, o), &enumvals(&x.values, o)),
        ),
        D::TypeExtension(TE::InputObject(x)) => d::typedef(
            "Input", true, p(x.position), None, x.name.as_ref(),
            &m_input(&dirs(&x.directives, o), &inputs(&x.fields, o)),
        ),
        D::DirectiveDefinition(x) => d::dirdef(
            p(x.position),
            x.description.as_deref(),
            x.name.as_ref(),
            &inputs(&x.arguments, o),
            x.repeatable,
            &d::names(x.locations.iter().map(locname)),
        ),
    }
}

pub fn sdoc<'a, T: Text<'a>>(x: &s::Document<'a, T>, o: Opt) -> String {
    x.definitions.iter().map(|x| sdef(x, o) + "\n").collect()
}
