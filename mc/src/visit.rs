//! Walks over ASTs.
use graphql_parser::query as q;
use graphql_parser::schema as s;
use q::{Text, Value};

/// nodes of a query document, outermost first
pub enum QN<'b, 'a, T: Text<'a>> {
    Def(&'b q::Definition<'a, T>),
    Sel(&'b q::SelectionSet<'a, T>),
    Field(&'b q::Field<'a, T>),
    Spread(&'b q::FragmentSpread<'a, T>),
    Inline(&'b q::InlineFragment<'a, T>),
    Cond(&'b q::TypeCondition<'a, T>),
    Var(&'b q::VariableDefinition<'a, T>),
    Type(&'b q::Type<'a, T>),
    Value(&'b Value<'a, T>),
    Dir(&'b q::Directive<'a, T>),
}

type F<'f, 'b, 'a, T> = dyn FnMut(QN<'b, 'a, T>) + 'f;

fn ty<'b, 'a, T: Text<'a>>(t: &'b q::Type<'a, T>, f: &mut F<'_, 'b, 'a, T>) {
    f(QN::Type(t));
    match t {
        q::Type::ListType(x) | q::Type::NonNullType(x) => ty(x, f),
        _ => {}
    }
}
fn val<'b, 'a, T: Text<'a>>(v: &'b Value<'a, T>, f: &mut F<'_, 'b, 'a, T>) {
    f(QN::Value(v));
    match v {
        Value::List(l) => l.iter().for_each(|x| val(x, f)),
        Value::Object(o) => o.values().for_each(|x| val(x, f)),
        _ => {}
    }
}
fn dirs<'b, 'a, T: Text<'a>>(d: &'b [q::Directive<'a, T>], f: &mut F<'_, 'b, 'a, T>) {
    for x in d {
        f(QN::Dir(x));
        x.arguments.iter().for_each(|a| val(&a.1, f));
    }
}
fn sel<'b, 'a, T: Text<'a>>(s: &'b q::SelectionSet<'a, T>, f: &mut F<'_, 'b, 'a, T>) {
    if s.items.is_empty() {
        return;
    }
    f(QN::Sel(s));
    for i in &s.items {
        match i {
            q::Selection::Field(x) => {
                f(QN::Field(x));
                x.arguments.iter().for_each(|a| val(&a.1, f));
                dirs(&x.directives, f);
                sel(&x.selection_set, f);
            }
            q::Selection::FragmentSpread(x) => {
                f(QN::Spread(x));
                dirs(&x.directives, f);
            }
            q::Selection::InlineFragment(x) => {
                f(QN::Inline(x));
                if let Some(c) = &x.type_condition {
                    f(QN::Cond(c));
                }
                dirs(&x.directives, f);
                sel(&x.selection_set, f);
            }
        }
    }
}
pub fn qnodes<'b, 'a, T: Text<'a>>(d: &'b q::Document<'a, T>, f: &mut F<'_, 'b, 'a, T>) {
    use q::OperationDefinition as O;
    for x in &d.definitions {
        f(QN::Def(x));
        let (vars, ds, s) = match x {
            q::Definition::Operation(O::SelectionSet(s)) => (&[][..], &[][..], s),
            q::Definition::Operation(O::Query(x)) => (&x.variable_definitions[..], &x.directives[..], &x.selection_set),
            q::Definition::Operation(O::Mutation(x)) => (&x.variable_definitions[..], &x.directives[..], &x.selection_set),
            q::Definition::Operation(O::Subscription(x)) => (&x.variable_definitions[..], &x.directives[..], &x.selection_set),
            q::Definition::Fragment(x) => {
                f(QN::Cond(&x.type_condition));
                (&[][..], &x.directives[..], &x.selection_set)
            }
        };
        for v in vars {
            f(QN::Var(v));
            ty(&v.var_type, f);
            if let Some(v) = &v.default_value {
                val(v, f);
            }
        }
        dirs(ds, f);
        sel(s, f);
    }
}

pub enum SN<'b, 'a, T: Text<'a>> {
    Def(&'b s::Definition<'a, T>),
    Field(&'b s::Field<'a, T>),
    Input(&'b s::InputValue<'a, T>),
    Q(QN<'b, 'a, T>),
}
type G<'f, 'b, 'a, T> = dyn FnMut(SN<'b, 'a, T>) + 'f;

fn sdirs<'b, 'a, T: Text<'a>>(d: &'b [q::Directive<'a, T>], f: &mut G<'_, 'b, 'a, T>) {
    dirs(d, &mut |x| f(SN::Q(x)));
}
fn inputs<'b, 'a, T: Text<'a>>(v: &'b [s::InputValue<'a, T>], f: &mut G<'_, 'b, 'a, T>) {
    for x in v {
        f(SN::Input(x));
        ty(&x.value_type, &mut |x| f(SN::Q(x)));
        if let Some(v) = &x.default_value {
            val(v, &mut |x| f(SN::Q(x)));
        }
        sdirs(&x.directives, f);
    }
}
fn sfields<'b, 'a, T: Text<'a>>(v: &'b [s::Field<'a, T>], f: &mut G<'_, 'b, 'a, T>) {
    for x in v {
        f(SN::Field(x));
        inputs(&x.arguments, f);
        ty(&x.field_type, &mut |x| f(SN::Q(x)));
        sdirs(&x.directives, f);
    }
}
pub fn snodes<'b, 'a, T: Text<'a>>(d: &'b s::Document<'a, T>, f: &mut G<'_, 'b, 'a, T>) {
    use s::Definition as D;
    use s::TypeDefinition as TD;
    use s::TypeExtension as TE;
    for x in &d.definitions {
        f(SN::Def(x));
        match x {
            D::SchemaDefinition(x) => sdirs(&x.directives, f),
            D::TypeDefinition(TD::Scalar(x)) => sdirs(&x.directives, f),
            D::TypeDefinition(TD::Object(x)) => {
                sdirs(&x.directives, f);
                sfields(&x.fields, f);
            }
            D::TypeDefinition(TD::Interface(x)) => {
                sdirs(&x.directives, f);
                sfields(&x.fields, f);
            }
            D::TypeDefinition(TD::Union(x)) => sdirs(&x.directives, f),
            D::TypeDefinition(TD::Enum(x)) => {
                sdirs(&x.directives, f);
                x.values.iter().for_each(|v| sdirs(&v.directives, f));
            }
            D::TypeDefinition(TD::InputObject(x)) => {
                sdirs(&x.directives, f);
                inputs(&x.fields, f);
            }
            D::TypeExtension(TE::Scalar(x)) => sdirs(&x.directives, f),
            D::TypeExtension(TE::Object(x)) => {
                sdirs(&x.directives, f);
                sfields(&x.fields, f);
            }
            D::TypeExtension(TE::Interface(x)) => {
                sdirs(&x.directives, f);
                sfields(&x.fields, f);
            }
            D::TypeExtension(TE::Union(x)) => sdirs(&x.directives, f),
            D::TypeExtension(TE::Enum(x)) => {
                sdirs(&x.directives, f);
                x.values.iter().for_each(|v| sdirs(&v.directives, f));
            }
            D::TypeExtension(TE::InputObject(x)) => {
                sdirs(&x.directives, f);
                inputs(&x.fields, f);
            }
            D::DirectiveDefinition(x) => inputs(&x.arguments, f),
        }
    }
}

pub fn qvalues<'b, 'a, T: Text<'a>>(d: &'b q::Document<'a, T>, f: &mut dyn FnMut(&'b Value<'a, T>)) {
    qnodes(d, &mut |n| {
        if let QN::Value(v) = n {
            f(v)
        }
    });
}
pub fn svalues<'b, 'a, T: Text<'a>>(d: &'b s::Document<'a, T>, f: &mut dyn FnMut(&'b Value<'a, T>)) {
    snodes(d, &mut |n| {
        if let SN::Q(QN::Value(v)) = n {
            f(v)
        }
    });
}

// ---- all strings of a document, to be changed or read

type M<'f> = dyn FnMut(&mut String) + 'f;

fn mval<'a, T: Text<'a>>(v: &mut Value<'a, T>, f: &mut M) {
    match v {
        Value::String(s) => f(s),
        Value::List(l) => l.iter_mut().for_each(|x| mval(x, f)),
        Value::Object(o) => o.values_mut().for_each(|x| mval(x, f)),
        _ => {}
    }
}
fn mdirs<'a, T: Text<'a>>(d: &mut [q::Directive<'a, T>], f: &mut M) {
    for x in d {
        x.arguments.iter_mut().for_each(|a| mval(&mut a.1, f));
    }
}
fn msel<'a, T: Text<'a>>(s: &mut q::SelectionSet<'a, T>, f: &mut M) {
    for i in &mut s.items {
        match i {
            q::Selection::Field(x) => {
                x.arguments.iter_mut().for_each(|a| mval(&mut a.1, f));
                mdirs(&mut x.directives, f);
                msel(&mut x.selection_set, f);
            }
            q::Selection::FragmentSpread(x) => mdirs(&mut x.directives, f),
            q::Selection::InlineFragment(x) => {
                mdirs(&mut x.directives, f);
                msel(&mut x.selection_set, f);
            }
        }
    }
}
pub fn qstrings<'a, T: Text<'a>>(d: &mut q::Document<'a, T>, f: &mut M) {
    use q::OperationDefinition as O;
    fn op<'a, T: Text<'a>>(v: &mut [q::VariableDefinition<'a, T>], d: &mut [q::Directive<'a, T>], s: &mut q::SelectionSet<'a, T>, f: &mut M) {
        for v in v {
            if let Some(x) = &mut v.default_value {
                mval(x, f);
            }
        }
        mdirs(d, f);
        msel(s, f);
    }
    for x in &mut d.definitions {
        match x {
            q::Definition::Operation(O::SelectionSet(s)) => msel(s, f),
            q::Definition::Operation(O::Query(x)) => op(&mut x.variable_definitions, &mut x.directives, &mut x.selection_set, f),
            q::Definition::Operation(O::Mutation(x)) => op(&mut x.variable_definitions, &mut x.directives, &mut x.selection_set, f),
            q::Definition::Operation(O::Subscription(x)) => op(&mut x.variable_definitions, &mut x.directives, &mut x.selection_set, f),
            q::Definition::Fragment(x) => {
                mdirs(&mut x.directives, f);
                msel(&mut x.selection_set, f);
            }
        }
    }
}
fn minputs<'a, T: Text<'a>>(v: &mut [s::InputValue<'a, T>], f: &mut M) {
    for x in v {
        if let Some(d) = &mut x.description {
            f(d);
        }
        if let Some(v) = &mut x.default_value {
            mval(v, f);
        }
        mdirs(&mut x.directives, f);
    }
}
fn mfields<'a, T: Text<'a>>(v: &mut [s::Field<'a, T>], f: &mut M) {
    for x in v {
        if let Some(d) = &mut x.description {
            f(d);
        }
        minputs(&mut x.arguments, f);
        mdirs(&mut x.directives, f);
    }
}
fn menum<'a, T: Text<'a>>(v: &mut [s::EnumValue<'a, T>], f: &mut M) {
    for x in v {
        if let Some(d) = &mut x.description {
            f(d);
        }
        mdirs(&mut x.directives, f);
    }
}
pub fn sstrings<'a, T: Text<'a>>(d: &mut s::Document<'a, T>, f: &mut M) {
    use s::Definition as D;
    use s::TypeDefinition as TD;
    use s::TypeExtension as TE;
    macro_rules! desc {
        ($x:expr) => {
            if let Some(d) = &mut $x.description {
                f(d);
            }
        };
    }
    for x in &mut d.definitions {
        match x {
            D::SchemaDefinition(x) => mdirs(&mut x.directives, f),
            D::TypeDefinition(TD::Scalar(x)) => {
                desc!(x);
                mdirs(&mut x.directives, f)
            }
            D::TypeDefinition(TD::Object(x)) => {
                desc!(x);
                mdirs(&mut x.directives, f);
                mfields(&mut x.fields, f);
            }
            D::TypeDefinition(TD::Interface(x)) => {
                desc!(x);
                mdirs(&mut x.directives, f);
                mfields(&mut x.fields, f);
            }
            D::TypeDefinition(TD::Union(x)) => {
                desc!(x);
                mdirs(&mut x.directives, f)
            }
            D::TypeDefinition(TD::Enum(x)) => {
                desc!(x);
                mdirs(&mut x.directives, f);
                menum(&mut x.values, f);
            }
            D::TypeDefinition(TD::InputObject(x)) => {
                desc!(x);
                mdirs(&mut x.directives, f);
                minputs(&mut x.fields, f);
            }
            D::TypeExtension(TE::Scalar(x)) => mdirs(&mut x.directives, f),
            D::TypeExtension(TE::Object(x)) => {
                mdirs(&mut x.directives, f);
                mfields(&mut x.fields, f);
            }
            D::TypeExtension(TE::Interface(x)) => {
                mdirs(&mut x.directives, f);
                mfields(&mut x.fields, f);
            }
            D::TypeExtension(TE::Union(x)) => mdirs(&mut x.directives, f),
            D::TypeExtension(TE::Enum(x)) => {
                mdirs(&mut x.directives, f);
                menum(&mut x.values, f);
            }
            D::TypeExtension(TE::InputObject(x)) => {
                mdirs(&mut x.directives, f);
                minputs(&mut x.fields, f);
            }
            D::DirectiveDefinition(x) => {
                desc!(x);
                minputs(&mut x.arguments, f);
            }
        }
    }
}

// ---- all positions of a document, to be changed

type PF<'f> = dyn FnMut(&mut graphql_parser::Pos) + 'f;

fn pdirs<'a, T: Text<'a>>(d: &mut [q::Directive<'a, T>], f: &mut PF) {
    d.iter_mut().for_each(|x| f(&mut x.position));
}
fn psel<'a, T: Text<'a>>(s: &mut q::SelectionSet<'a, T>, f: &mut PF) {
    f(&mut s.span.0);
    f(&mut s.span.1);
    for i in &mut s.items {
        match i {
            q::Selection::Field(x) => {
                f(&mut x.position);
                pdirs(&mut x.directives, f);
                psel(&mut x.selection_set, f);
            }
            q::Selection::FragmentSpread(x) => {
                f(&mut x.position);
                pdirs(&mut x.directives, f)
            }
            q::Selection::InlineFragment(x) => {
                f(&mut x.position);
                pdirs(&mut x.directives, f);
                psel(&mut x.selection_set, f);
            }
        }
    }
}
pub fn qpos<'a, T: Text<'a>>(d: &mut q::Document<'a, T>, f: &mut PF) {
    use q::OperationDefinition as O;
    macro_rules! op {
        ($x:expr) => {{
            f(&mut $x.position);
            $x.variable_definitions.iter_mut().for_each(|v| f(&mut v.position));
            pdirs(&mut $x.directives, f);
            psel(&mut $x.selection_set, f);
        }};
    }
    for x in &mut d.definitions {
        match x {
            q::Definition::Operation(O::SelectionSet(s)) => psel(s, f),
            q::Definition::Operation(O::Query(x)) => op!(x),
            q::Definition::Operation(O::Mutation(x)) => op!(x),
            q::Definition::Operation(O::Subscription(x)) => op!(x),
            q::Definition::Fragment(x) => {
                f(&mut x.position);
                pdirs(&mut x.directives, f);
                psel(&mut x.selection_set, f);
            }
        }
    }
}
fn pinputs<'a, T: Text<'a>>(v: &mut [s::InputValue<'a, T>], f: &mut PF) {
    for x in v {
        f(&mut x.position);
        pdirs(&mut x.directives, f);
    }
}
fn pfields<'a, T: Text<'a>>(v: &mut [s::Field<'a, T>], f: &mut PF) {
    for x in v {
        f(&mut x.position);
        pinputs(&mut x.arguments, f);
        pdirs(&mut x.directives, f);
    }
}
fn penum<'a, T: Text<'a>>(v: &mut [s::EnumValue<'a, T>], f: &mut PF) {
    for x in v {
        f(&mut x.position);
        pdirs(&mut x.directives, f);
    }
}
pub fn spos<'a, T: Text<'a>>(d: &mut s::Document<'a, T>, f: &mut PF) {
    use s::Definition as D;
    use s::TypeDefinition as TD;
    use s::TypeExtension as TE;
    macro_rules! head {
        ($x:expr) => {{
            f(&mut $x.position);
            pdirs(&mut $x.directives, f);
        }};
    }
    for x in &mut d.definitions {
        match x {
            D::SchemaDefinition(x) => head!(x),
            D::TypeDefinition(TD::Scalar(x)) => head!(x),
            D::TypeDefinition(TD::Union(x)) => head!(x),
            D::TypeExtension(TE::Scalar(x)) => head!(x),
            D::TypeExtension(TE::Union(x)) => head!(x),
            D::TypeDefinition(TD::Object(x)) => {
                head!(x);
                pfields(&mut x.fields, f);
            }
            D::TypeDefinition(TD::Interface(x)) => {
                head!(x);
                pfields(&mut x.fields, f);
            }
            D::TypeExtension(TE::Object(x)) => {
                head!(x);
                pfields(&mut x.fields, f);
            }
            D::TypeExtension(TE::Interface(x)) => {
                head!(x);
                pfields(&mut x.fields, f);
            }
            D::TypeDefinition(TD::Enum(x)) => {
                head!(x);
                penum(&mut x.values, f);
            }
            D::TypeExtension(TE::Enum(x)) => {
                head!(x);
                penum(&mut x.values, f);
            }
            D::TypeDefinition(TD::InputObject(x)) => {
                head!(x);
                pinputs(&mut x.fields, f);
            }
            D::TypeExtension(TE::InputObject(x)) => {
                head!(x);
                pinputs(&mut x.fields, f);
            }
            D::DirectiveDefinition(x) => {
                f(&mut x.position);
                pinputs(&mut x.arguments, f);
            }
        }
    }
}
