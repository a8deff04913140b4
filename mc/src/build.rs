//! Documents built by hand, step by step, next to the text that says the same.

use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::Pos;
use q::{Directive, Number, Type, Value};
use std::collections::BTreeMap;

type V = Value<'static, String>;

/// values to choose from, with the text for each
pub fn values() -> Vec<(V, &'static str)> {
    let o = |v: Vec<(&str, V)>| V::Object(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<BTreeMap<_, _>>());
    vec![
        (V::Int(Number::from(-7)), "-7"),
        (V::Float(1.5), "1.5"),
        (V::String("a\n b\"\"\"".into()), "\"a\\n b\\\"\\\"\\\"\""),
        (V::String("".into()), "\"\""),
        (V::Boolean(true), "true"),
        (V::Null, "null"),
        (V::Enum("E".into()), "E"),
        (V::List(vec![]), "[]"),
        (o(vec![]), "{}"),
        (V::List(vec![V::Int(Number::from(i32::MIN)), V::List(vec![V::Boolean(false)])]), "[-2147483648 [false]]"),
        (o(vec![("z", V::List(vec![])), ("a", o(vec![("k", V::String("x\ny".into()))]))]), "{z:[] a:{k:\"x\\ny\"}}"),
    ]
}
fn types() -> Vec<(Type<'static, String>, &'static str)> {
    let n = |s: &str| Type::NamedType(s.to_string());
    vec![
        (n("T"), "T"),
        (Type::NonNullType(Box::new(n("T"))), "T!"),
        (Type::ListType(Box::new(Type::NonNullType(Box::new(Type::ListType(Box::new(n("U"))))))), "[[U]!]"),
    ]
}
/// directive `i`: bare, or with arguments
fn dir(i: usize) -> (Directive<'static, String>, String) {
    let vs = values();
    let mut d = Directive { position: Pos::default(), name: format!("d{}", i), arguments: vec![] };
    let mut t = format!("@d{}", i);
    if i % 2 == 1 {
        let (a, b) = (&vs[i % vs.len()], &vs[(i * 3 + 2) % vs.len()]);
        d.arguments = vec![("x".into(), a.0.clone()), ("y".into(), b.0.clone())];
        t += &format!("(x:{} y:{})", a.1, b.1);
    }
    (d, t)
}
fn desc(i: usize) -> (Option<String>, &'static str) {
    match i % 4 {
        0 => (None, ""),
        1 => (Some("one".into()), "\"one\" "),
        2 => (Some("one\n\n  two".into()), "\"one\\n\\n  two\" "),
        _ => (Some("".into()), "\"\" "),
    }
}
fn input(i: usize) -> (s::InputValue<'static, String>, String) {
    let (vs, ts) = (values(), types());
    let (de, dt) = desc(i);
    let t = &ts[i % ts.len()];
    let mut x = s::InputValue { position: Pos::default(), description: de, name: format!("i{}", i), value_type: t.0.clone(), default_value: None, directives: vec![] };
    let mut w = format!("{}i{}:{}", dt, i, t.1);
    if i % 2 == 1 {
        let v = &vs[i % vs.len()];
        x.default_value = Some(v.0.clone());
        w += &format!("={}", v.1);
    }
    if i % 3 == 2 {
        let (d, t) = dir(i);
        x.directives = vec![d];
        w += &t;
    }
    (x, w)
}
fn field(i: usize) -> (s::Field<'static, String>, String) {
    let ts = types();
    let (de, dt) = desc(i + 1);
    let t = &ts[(i + 1) % ts.len()];
    let mut x = s::Field { position: Pos::default(), description: de, name: format!("f{}", i), arguments: vec![], field_type: t.0.clone(), directives: vec![] };
    let mut w = format!("{}f{}", dt, i);
    if i % 2 == 1 {
        let (a, b) = (input(i), input(i + 3));
        x.arguments = vec![a.0, b.0];
        w += &format!("({} {})", a.1, b.1);
    }
    w += &format!(":{}", t.1);
    if i % 3 == 1 {
        let (d, t) = dir(i);
        x.directives = vec![d];
        w += &t;
    }
    (x, w)
}
fn enumval(i: usize) -> (s::EnumValue<'static, String>, String) {
    let mut x = s::EnumValue::new(format!("E{}", i));
    let (de, dt) = desc(i);
    x.description = de;
    let mut w = format!("{}E{}", dt, i);
    if i % 2 == 0 {
        let (d, t) = dir(i + 1);
        x.directives = vec![d];
        w += &t;
    }
    (x, w)
}
fn selset(items: Vec<q::Selection<'static, String>>) -> q::SelectionSet<'static, String> {
    q::SelectionSet { span: (Pos::default(), Pos::default()), items }
}
fn selection(i: usize) -> (q::Selection<'static, String>, String) {
    let vs = values();
    let p = Pos::default();
    let leaf = |n: &str| {
        q::Selection::Field(q::Field { position: Pos::default(), alias: None, name: n.to_string(), arguments: vec![], directives: vec![], selection_set: selset(vec![]) })
    };
    match i % 5 {
        0 => (leaf(&format!("l{}", i)), format!("l{}", i)),
        1 => {
            let v = &vs[i % vs.len()];
            let (d, t) = dir(i);
            (
                q::Selection::Field(q::Field {
                    position: p,
                    alias: Some("al".into()),
                    name: "nm".into(),
                    arguments: vec![("x".into(), v.0.clone()), ("y".into(), V::Variable("v".into()))],
                    directives: vec![d],
                    selection_set: selset(vec![leaf("a"), leaf("b")]),
                }),
                format!("al:nm(x:{} y:$v){}{{a b}}", v.1, t),
            )
        }
        2 => (q::Selection::FragmentSpread(q::FragmentSpread { position: p, fragment_name: "Fr".into(), directives: vec![dir(i).0, dir(i + 1).0] }), format!("...Fr{}{}", dir(i).1, dir(i + 1).1)),
        3 => (
            q::Selection::InlineFragment(q::InlineFragment { position: p, type_condition: Some(q::TypeCondition::On("T".into())), directives: vec![], selection_set: selset(vec![leaf("a")]) }),
            "...on T{a}".into(),
        ),
        _ => (
            q::Selection::InlineFragment(q::InlineFragment { position: p, type_condition: None, directives: vec![dir(i).0], selection_set: selset(vec![leaf("a"), leaf("b")]) }),
            format!("...{}{{a b}}", dir(i).1),
        ),
    }
}
fn var(i: usize) -> (q::VariableDefinition<'static, String>, String) {
    let (vs, ts) = (values(), types());
    let t = &ts[i % ts.len()];
    let mut x = q::VariableDefinition { position: Pos::default(), name: format!("v{}", i), var_type: t.0.clone(), default_value: None };
    let mut w = format!("$v{}:{}", i, t.1);
    if i % 2 == 0 {
        let v = &vs[i % vs.len()];
        x.default_value = Some(v.0.clone());
        w += &format!("={}", v.1);
    }
    (x, w)
}

/// kinds of schema definitions and the steps each can take
pub const SKINDS: [(&str, &str); 14] = [
    ("schema", "dqms"),
    ("scalar", "tTud"),
    ("type", "tTudif"),
    ("interface", "tTudif"),
    ("union", "tTudm"),
    ("enum", "tTude"),
    ("input", "tTudn"),
    ("directive", "tTunrl"),
    ("xscalar", "d"),
    ("xtype", "dif"),
    ("xinterface", "dif"),
    ("xunion", "dm"),
    ("xenum", "de"),
    ("xinput", "dn"),
];
pub const QKINDS: [(&str, &str); 5] = [("set", "s"), ("query", "nvds"), ("mutation", "nvds"), ("subscription", "nvds"), ("fragment", "ds")];

#[derive(Default)]
struct Parts {
    desc: String,
    name: String,
    intf: Vec<String>,
    dirs: Vec<String>,
    body: Vec<String>,
    ops: [Option<String>; 3],
    vars: Vec<String>,
    rep: bool,
}

const LOCS: [(s::DirectiveLocation, &str); 4] = [
    (s::DirectiveLocation::Field, "FIELD"),
    (s::DirectiveLocation::InputFieldDefinition, "INPUT_FIELD_DEFINITION"),
    (s::DirectiveLocation::Query, "QUERY"),
    (s::DirectiveLocation::VariableDefinition, "VARIABLE_DEFINITION"),
];

/// the definition after the steps, and its text
pub fn sbuild(kind: &str, steps: &str) -> (s::Definition<'static, String>, String) {
    let mut p = Parts { name: "Nm".into(), ..Default::default() };
    macro_rules! run {
        ($x:ident; $($c:literal => $e:expr),*) => {
            for (i, c) in steps.bytes().enumerate() {
                let _ = i;
                match c {
                    $($c => { #[allow(clippy::redundant_closure_call)] ($e)(&mut $x, &mut p, i) })*
                    _ => unreachable!("step {} of {}", c as char, kind),
                }
            }
        };
    }
    macro_rules! t { ($n:literal) => { |x: &mut _, p: &mut Parts, _i: usize| { let (d, w) = desc($n); set_desc(x, d); p.desc = w.to_string(); } } }
    macro_rules! d { () => { |x: &mut _, p: &mut Parts, i: usize| { let (d, w) = dir(i); dirs_of(x).push(d); p.dirs.push(w); } } }
    // the types share no trait; small ones here
    trait Desc { fn set(&mut self, d: Option<String>); }
    fn set_desc<X: Desc>(x: &mut X, d: Option<String>) { x.set(d) }
    trait Dirs { fn dirs(&mut self) -> &mut Vec<Directive<'static, String>>; }
    fn dirs_of<X: Dirs>(x: &mut X) -> &mut Vec<Directive<'static, String>> { x.dirs() }
    macro_rules! imp { (desc $($t:ident)*) => { $(impl Desc for s::$t<'static, String> { fn set(&mut self, d: Option<String>) { self.description = d } })* };
        (dirs $($t:ident)*) => { $(impl Dirs for s::$t<'static, String> { fn dirs(&mut self) -> &mut Vec<Directive<'static, String>> { &mut self.directives } })* } }
    imp!(desc ScalarType ObjectType InterfaceType UnionType EnumType InputObjectType DirectiveDefinition);
    imp!(dirs SchemaDefinition ScalarType ObjectType InterfaceType UnionType EnumType InputObjectType ScalarTypeExtension ObjectTypeExtension InterfaceTypeExtension UnionTypeExtension EnumTypeExtension InputObjectTypeExtension);
    macro_rules! intf { () => { |x: &mut _, p: &mut Parts, i: usize| { let n = format!("I{}", i); intf_of(x).push(n.clone()); p.intf.push(n); } } }
    macro_rules! fld { () => { |x: &mut _, p: &mut Parts, i: usize| { let (f, w) = field(i); fields_of(x).push(f); p.body.push(w); } } }
    trait Obj { fn i(&mut self) -> &mut Vec<String>; fn f(&mut self) -> &mut Vec<s::Field<'static, String>>; }
    fn intf_of<X: Obj>(x: &mut X) -> &mut Vec<String> { x.i() }
    fn fields_of<X: Obj>(x: &mut X) -> &mut Vec<s::Field<'static, String>> { x.f() }
    macro_rules! obj { ($($t:ident)*) => { $(impl Obj for s::$t<'static, String> { fn i(&mut self) -> &mut Vec<String> { &mut self.implements_interfaces } fn f(&mut self) -> &mut Vec<s::Field<'static, String>> { &mut self.fields } })* } }
    obj!(ObjectType InterfaceType ObjectTypeExtension InterfaceTypeExtension);

    use s::Definition as D;
    use s::TypeDefinition as TD;
    use s::TypeExtension as TE;
    let nm = || String::from("Nm");
    macro_rules! object {
        ($t:ident, $wrap:expr, desc) => {{
            let mut x = s::$t::<String>::new(nm());
            run!(x; b't' => t!(1), b'T' => t!(2), b'u' => t!(0), b'd' => d!(), b'i' => intf!(), b'f' => fld!());
            $wrap(x)
        }};
        ($t:ident, $wrap:expr) => {{
            let mut x = s::$t::<String>::new(nm());
            run!(x; b'd' => d!(), b'i' => intf!(), b'f' => fld!());
            $wrap(x)
        }};
    }
    let def = match kind {
        "schema" => {
            let mut x = s::SchemaDefinition::<String>::default();
            run!(x; b'd' => d!(),
                b'q' => |x: &mut s::SchemaDefinition<'static, String>, p: &mut Parts, i: usize| { x.query = Some(format!("O{}", i)); p.ops[0] = Some(format!("query:O{}", i)); },
                b'm' => |x: &mut s::SchemaDefinition<'static, String>, p: &mut Parts, i: usize| { x.mutation = Some(format!("O{}", i)); p.ops[1] = Some(format!("mutation:O{}", i)); },
                b's' => |x: &mut s::SchemaDefinition<'static, String>, p: &mut Parts, i: usize| { x.subscription = Some(format!("O{}", i)); p.ops[2] = Some(format!("subscription:O{}", i)); });
            D::SchemaDefinition(x)
        }
        "scalar" => {
            let mut x = s::ScalarType::<String>::new(nm());
            run!(x; b't' => t!(1), b'T' => t!(2), b'u' => t!(3), b'd' => d!());
            D::TypeDefinition(TD::Scalar(x))
        }
        "xscalar" => {
            let mut x = s::ScalarTypeExtension::<String>::new(nm());
            run!(x; b'd' => d!());
            D::TypeExtension(TE::Scalar(x))
        }
        "type" => object!(ObjectType, |x| D::TypeDefinition(TD::Object(x)), desc),
        "interface" => object!(InterfaceType, |x| D::TypeDefinition(TD::Interface(x)), desc),
        "xtype" => object!(ObjectTypeExtension, |x| D::TypeExtension(TE::Object(x))),
        "xinterface" => object!(InterfaceTypeExtension, |x| D::TypeExtension(TE::Interface(x))),
        "union" => {
            let mut x = s::UnionType::<String>::new(nm());
            run!(x; b't' => t!(1), b'T' => t!(2), b'u' => t!(0), b'd' => d!(),
                b'm' => |x: &mut s::UnionType<'static, String>, p: &mut Parts, i: usize| { x.types.push(format!("U{}", i)); p.body.push(format!("U{}", i)); });
            D::TypeDefinition(TD::Union(x))
        }
        "xunion" => {
            let mut x = s::UnionTypeExtension::<String>::new(nm());
            run!(x; b'd' => d!(),
                b'm' => |x: &mut s::UnionTypeExtension<'static, String>, p: &mut Parts, i: usize| { x.types.push(format!("U{}", i)); p.body.push(format!("U{}", i)); });
            D::TypeExtension(TE::Union(x))
        }
        "enum" => {
            let mut x = s::EnumType::<String>::new(nm());
            run!(x; b't' => t!(1), b'T' => t!(2), b'u' => t!(0), b'd' => d!(),
                b'e' => |x: &mut s::EnumType<'static, String>, p: &mut Parts, i: usize| { let (v, w) = enumval(i); x.values.push(v); p.body.push(w); });
            D::TypeDefinition(TD::Enum(x))
        }
        "xenum" => {
            let mut x = s::EnumTypeExtension::<String>::new(nm());
            run!(x; b'd' => d!(),
                b'e' => |x: &mut s::EnumTypeExtension<'static, String>, p: &mut Parts, i: usize| { let (v, w) = enumval(i); x.values.push(v); p.body.push(w); });
            D::TypeExtension(TE::Enum(x))
        }
        "input" => {
            let mut x = s::InputObjectType::<String>::new(nm());
            run!(x; b't' => t!(1), b'T' => t!(2), b'u' => t!(0), b'd' => d!(),
                b'n' => |x: &mut s::InputObjectType<'static, String>, p: &mut Parts, i: usize| { let (v, w) = input(i); x.fields.push(v); p.body.push(w); });
            D::TypeDefinition(TD::InputObject(x))
        }
        "xinput" => {
            let mut x = s::InputObjectTypeExtension::<String>::new(nm());
            run!(x; b'd' => d!(),
                b'n' => |x: &mut s::InputObjectTypeExtension<'static, String>, p: &mut Parts, i: usize| { let (v, w) = input(i); x.fields.push(v); p.body.push(w); });
            D::TypeExtension(TE::InputObject(x))
        }
        "directive" => {
            let mut x = s::DirectiveDefinition::<String>::new(nm());
            type X = s::DirectiveDefinition<'static, String>;
            run!(x; b't' => t!(1), b'T' => t!(2), b'u' => t!(0),
                b'r' => |x: &mut X, p: &mut Parts, _i: usize| { x.repeatable = !x.repeatable; p.rep = !p.rep; },
                b'l' => |x: &mut X, p: &mut Parts, i: usize| { let (l, w) = &LOCS[i % 4]; x.locations.push(l.clone()); p.vars.push(w.to_string()); },
                b'n' => |x: &mut X, p: &mut Parts, i: usize| { let (v, w) = input(i); x.arguments.push(v); p.body.push(w); });
            D::DirectiveDefinition(x)
        }
        _ => unreachable!("{}", kind),
    };
    let ds = p.dirs.join(" ");
    let braces = |b: &[String]| if b.is_empty() { String::new() } else { format!("{{{}}}", b.join(" ")) };
    let (ext, base) = match kind.strip_prefix('x') {
        Some(b) => ("extend ", b),
        None => ("", kind),
    };
    let intf = if p.intf.is_empty() { String::new() } else { format!(" implements {}", p.intf.join("&")) };
    let text = match base {
        "schema" => format!("schema {}{{{}}}", ds, p.ops.iter().flatten().cloned().collect::<Vec<_>>().join(" ")),
        "directive" => format!(
            "{}directive@{}{}{} on {}",
            p.desc,
            p.name,
            if p.body.is_empty() { String::new() } else { format!("({})", p.body.join(" ")) },
            if p.rep { " repeatable" } else { "" },
            p.vars.join("|")
        ),
        "union" => format!("{}{}union {} {}{}", p.desc, ext, p.name, ds, if p.body.is_empty() { String::new() } else { format!("={}", p.body.join("|")) }),
        _ => format!("{}{}{} {}{} {}{}", p.desc, ext, base, p.name, intf, ds, braces(&p.body)),
    };
    (def, text)
}

pub fn qbuild(kind: &str, steps: &str) -> (q::Definition<'static, String>, String) {
    let mut name: Option<String> = None;
    let (mut vars, mut dirs, mut sels) = (vec![], vec![], vec![]);
    let (mut vt, mut dt, mut st) = (vec![], vec![], vec![]);
    for (i, c) in steps.bytes().enumerate() {
        match c {
            b'n' => name = Some(format!("N{}", i)),
            b'v' => {
                let (v, w) = var(i);
                vars.push(v);
                vt.push(w);
            }
            b'd' => {
                let (v, w) = dir(i);
                dirs.push(v);
                dt.push(w);
            }
            _ => {
                let (v, w) = selection(i);
                sels.push(v);
                st.push(w);
            }
        }
    }
    let p = Pos::default();
    let sel = selset(sels);
    let body = format!("{{{}}}", st.join(" "));
    use q::OperationDefinition as O;
    let head = |k: &str| {
        format!("{} {}{} {}{}", k, name.clone().unwrap_or_default(), if vt.is_empty() { String::new() } else { format!("({})", vt.join(" ")) }, dt.join(" "), body)
    };
    let text = match kind {
        "set" => body.clone(),
        "fragment" => format!("fragment Fr on T {}{}", dt.join(" "), body),
        k => head(k),
    };
    let d = match kind {
        "set" => q::Definition::Operation(O::SelectionSet(sel)),
        "query" => q::Definition::Operation(O::Query(q::Query { position: p, name, variable_definitions: vars, directives: dirs, selection_set: sel })),
        "mutation" => q::Definition::Operation(O::Mutation(q::Mutation { position: p, name, variable_definitions: vars, directives: dirs, selection_set: sel })),
        "subscription" => q::Definition::Operation(O::Subscription(q::Subscription { position: p, name, variable_definitions: vars, directives: dirs, selection_set: sel })),
        _ => q::Definition::Fragment(q::FragmentDefinition { position: p, name: "Fr".into(), type_condition: q::TypeCondition::On("T".into()), directives: dirs, selection_set: sel }),
    };
    (d, text)
}
