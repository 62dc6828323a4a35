//! rx FILE.rs...  -- dumps the syntax tree of Rust source files as JSON (one object per file).
//! It parses with `syn`; nothing is interpreted here.
use quote::ToTokens;
use serde_json::{json, Value};
use syn::spanned::Spanned;
use syn::*;

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn ln<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}
fn lne<T: Spanned>(t: &T) -> usize {
    t.span().end().line
}

fn ty(t: &Type) -> Value {
    match t {
        Type::Reference(r) => json!({"k":"Ref","mut":r.mutability.is_some(),"life":r.lifetime.as_ref().map(|l|l.to_string()),"of":ty(&r.elem)}),
        Type::Slice(s) => json!({"k":"Slice","of":ty(&s.elem)}),
        Type::Array(a) => json!({"k":"Array","of":ty(&a.elem),"len":expr(&a.len)}),
        Type::Tuple(t) => json!({"k":"Tuple","elems":t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Path(p) => {
            if p.qself.is_some() { return json!({"k":"Verb","text":toks(t)}); }
            path(&p.path)
        }
        Type::Infer(_) => json!({"k":"Infer"}),
        Type::Paren(p) => ty(&p.elem),
        Type::TraitObject(o) => json!({"k":"Dyn","text":toks(o),"bounds":o.bounds.iter().map(toks).collect::<Vec<_>>()}),
        Type::ImplTrait(o) => json!({"k":"Impl","text":toks(o)}),
        Type::Never(_) => json!({"k":"Never"}),
        _ => json!({"k":"Verb","text":toks(t)}),
    }
}
fn path(p: &Path) -> Value {
    let segs: Vec<Value> = p.segments.iter().map(|s| {
        let args: Value = match &s.arguments {
            PathArguments::None => Value::Null,
            PathArguments::AngleBracketed(a) => Value::Array(a.args.iter().map(|g| match g {
                GenericArgument::Type(t) => ty(t),
                GenericArgument::Lifetime(l) => json!({"k":"Life","name":l.to_string()}),
                o => json!({"k":"Verb","text":toks(o)}),
            }).collect()),
            PathArguments::Parenthesized(a) => json!({"fnargs":a.inputs.iter().map(ty).collect::<Vec<_>>(),
                "ret": match &a.output { ReturnType::Default => Value::Null, ReturnType::Type(_, t) => ty(t)}}),
        };
        json!({"n":s.ident.to_string(),"args":args})
    }).collect();
    json!({"k":"Path","segs":segs,"lead":p.leading_colon.is_some()})
}
fn pat(p: &Pat) -> Value {
    let v = match p {
        Pat::Ident(i) => json!({"k":"PIdent","name":i.ident.to_string(),"mut":i.mutability.is_some(),"ref":i.by_ref.is_some(),
            "sub":i.subpat.as_ref().map(|(_,s)|pat(s))}),
        Pat::Wild(_) => json!({"k":"PWild"}),
        Pat::Tuple(t) => json!({"k":"PTuple","elems":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => json!({"k":"PTupleStruct","path":path(&t.path),"elems":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Path(pp) => json!({"k":"PPath","path":path(&pp.path)}),
        Pat::Struct(s) => json!({"k":"PStruct","path":path(&s.path),"rest":s.rest.is_some(),
            "fields":s.fields.iter().map(|f|json!({"name":toks(&f.member),"pat":pat(&f.pat),"short":f.colon_token.is_none()})).collect::<Vec<_>>()}),
        Pat::Lit(l) => json!({"k":"PLit","lit":lit(&l.lit)}),
        Pat::Or(o) => json!({"k":"POr","cases":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Reference(r) => json!({"k":"PRef","pat":pat(&r.pat)}),
        Pat::Type(t) => json!({"k":"PType","pat":pat(&t.pat),"ty":ty(&t.ty)}),
        Pat::Paren(t) => pat(&t.pat),
        Pat::Rest(_) => json!({"k":"PRest"}),
        Pat::Slice(t) => json!({"k":"PSlice","elems":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        _ => json!({"k":"PVerb","text":toks(p)}),
    };
    v
}
fn lit(l: &Lit) -> Value {
    match l {
        Lit::Str(s) => json!({"k":"str","v":s.value()}),
        Lit::Char(c) => json!({"k":"char","v":c.value().to_string()}),
        Lit::Int(i) => json!({"k":"int","v":i.base10_digits(),"suffix":i.suffix()}),
        Lit::Float(i) => json!({"k":"float","v":i.base10_digits(),"suffix":i.suffix()}),
        Lit::Bool(b) => json!({"k":"bool","v":b.value}),
        o => json!({"k":"other","v":toks(o)}),
    }
}
fn block(b: &Block) -> Value {
    Value::Array(b.stmts.iter().map(stmt).collect())
}
fn mac(m: &Macro) -> Value {
    // arguments: comma separated expressions when they parse as such, named ones included
    let name = m.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
    let mut args = Value::Null;
    let mut extra = Value::Null;
    if name == "matches" {
        struct M { e: Expr, p: Pat, g: Option<Expr> }
        impl parse::Parse for M {
            fn parse(i: parse::ParseStream) -> Result<Self> {
                let e: Expr = i.parse()?; i.parse::<Token![,]>()?;
                let p = Pat::parse_multi_with_leading_vert(i)?;
                let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                let _ = i.parse::<Option<Token![,]>>()?;
                Ok(M{e,p,g})
            }
        }
        if let Ok(mm) = m.parse_body::<M>() {
            extra = json!({"e":expr(&mm.e),"p":pat(&mm.p),"g":mm.g.as_ref().map(expr)});
        }
    } else if let Ok(a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
        args = Value::Array(a.iter().map(expr).collect());
    } else {
        struct R { e: Expr, n: Expr }
        impl parse::Parse for R { fn parse(i: parse::ParseStream) -> Result<Self> { let e = i.parse()?; i.parse::<Token![;]>()?; let n = i.parse()?; Ok(R{e,n}) } }
        if let Ok(r) = m.parse_body::<R>() { extra = json!({"repeat":[expr(&r.e),expr(&r.n)]}); }
    }
    json!({"k":"Macro","name":name,"args":args,"extra":extra,"text":m.tokens.to_string()})
}
fn stmt(s: &Stmt) -> Value {
    let mut v = match s {
        Stmt::Local(l) => {
            let (init, els) = match &l.init { Some(i) => (expr(&i.expr), i.diverge.as_ref().map(|(_, e)| expr(e))), None => (Value::Null, None) };
            json!({"k":"Let","pat":pat(&l.pat),"init":init,"else":els})
        }
        Stmt::Item(i) => json!({"k":"Item","item":item(i)}),
        Stmt::Expr(e, semi) => json!({"k":"Expr","e":expr(e),"semi":semi.is_some()}),
        Stmt::Macro(m) => { let mut x = mac(&m.mac); x["line"] = json!(ln(m)); json!({"k":"Expr","e":x,"semi":m.semi_token.is_some()}) }
    };
    v["line"] = json!(ln(s));
    v
}
fn expr(e: &Expr) -> Value {
    let mut v = match e {
        Expr::Path(p) => if p.qself.is_some() { json!({"k":"Verb","text":toks(e)}) } else { json!({"k":"EPath","path":path(&p.path)}) },
        Expr::Lit(l) => json!({"k":"Lit","lit":lit(&l.lit)}),
        Expr::MethodCall(m) => json!({"k":"MethodCall","recv":expr(&m.receiver),"m":m.method.to_string(),
            "turbo":m.turbofish.as_ref().map(|t|t.args.iter().map(|g| match g {GenericArgument::Type(t)=>ty(t),o=>json!({"k":"Verb","text":toks(o)})}).collect::<Vec<_>>()),
            "args":m.args.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Call(c) => json!({"k":"Call","f":expr(&c.func),"args":c.args.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Field(f) => json!({"k":"Field","base":expr(&f.base),"name":toks(&f.member)}),
        Expr::Index(i) => json!({"k":"Index","base":expr(&i.expr),"idx":expr(&i.index)}),
        Expr::Binary(b) => json!({"k":"Bin","op":toks(&b.op),"l":expr(&b.left),"r":expr(&b.right)}),
        Expr::Unary(u) => json!({"k":"Un","op":toks(&u.op),"e":expr(&u.expr)}),
        Expr::Reference(r) => json!({"k":"ERef","mut":r.mutability.is_some(),"e":expr(&r.expr)}),
        Expr::Paren(p) => json!({"k":"Paren","e":expr(&p.expr)}),
        Expr::Group(p) => expr(&p.expr),
        Expr::Block(b) => json!({"k":"Block","stmts":block(&b.block),"label":b.label.as_ref().map(|l|l.name.to_string())}),
        Expr::Unsafe(b) => json!({"k":"Unsafe","stmts":block(&b.block)}),
        Expr::If(i) => json!({"k":"If","cond":expr(&i.cond),"then":block(&i.then_branch),"else":i.else_branch.as_ref().map(|(_,e)|expr(e))}),
        Expr::Let(l) => json!({"k":"ELet","pat":pat(&l.pat),"e":expr(&l.expr)}),
        Expr::Match(m) => json!({"k":"Match","e":expr(&m.expr),"arms":m.arms.iter().map(|a|json!({"pat":pat(&a.pat),"guard":a.guard.as_ref().map(|(_,g)|expr(g)),"body":expr(&a.body),"line":ln(a)})).collect::<Vec<_>>()}),
        Expr::While(w) => json!({"k":"While","cond":expr(&w.cond),"body":block(&w.body),"label":w.label.as_ref().map(|l|l.name.to_string())}),
        Expr::Loop(w) => json!({"k":"Loop","body":block(&w.body),"label":w.label.as_ref().map(|l|l.name.to_string())}),
        Expr::ForLoop(f) => json!({"k":"For","pat":pat(&f.pat),"e":expr(&f.expr),"body":block(&f.body),"label":f.label.as_ref().map(|l|l.name.to_string())}),
        Expr::Return(r) => json!({"k":"Return","e":r.expr.as_ref().map(|e|expr(e))}),
        Expr::Break(b) => json!({"k":"Break","e":b.expr.as_ref().map(|e|expr(e)),"label":b.label.as_ref().map(|l|l.to_string())}),
        Expr::Continue(b) => json!({"k":"Continue","label":b.label.as_ref().map(|l|l.to_string())}),
        Expr::Assign(a) => json!({"k":"Assign","l":expr(&a.left),"r":expr(&a.right)}),
        Expr::Closure(c) => json!({"k":"Closure","move":c.capture.is_some(),"params":c.inputs.iter().map(pat).collect::<Vec<_>>(),"body":expr(&c.body),
            "ret": match &c.output { ReturnType::Default => Value::Null, ReturnType::Type(_, t) => ty(t)}}),
        Expr::Struct(s) => json!({"k":"Struct","path":path(&s.path),"fields":s.fields.iter().map(|f|json!({"name":toks(&f.member),"e":expr(&f.expr)})).collect::<Vec<_>>(),
            "rest":s.rest.as_ref().map(|e|expr(e))}),
        Expr::Tuple(t) => json!({"k":"ETuple","elems":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Array(t) => json!({"k":"EArray","elems":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Range(r) => json!({"k":"Range","a":r.start.as_ref().map(|e|expr(e)),"b":r.end.as_ref().map(|e|expr(e)),"incl":matches!(r.limits,RangeLimits::Closed(_))}),
        Expr::Cast(c) => json!({"k":"Cast","e":expr(&c.expr),"ty":ty(&c.ty)}),
        Expr::Try(t) => json!({"k":"Try","e":expr(&t.expr)}),
        Expr::Macro(m) => mac(&m.mac),
        Expr::Infer(_) => json!({"k":"Underscore"}),
        _ => json!({"k":"Verb","text":toks(e)}),
    };
    v["line"] = json!(ln(e));
    v
}
fn attrs(a: &[Attribute]) -> Vec<String> {
    a.iter().filter(|x| !x.path().is_ident("doc")).map(toks).collect()
}
fn generics(g: &Generics) -> Value {
    json!({"params":g.params.iter().map(|p| match p {
        GenericParam::Type(t)=>json!({"k":"Type","name":t.ident.to_string(),"bounds":t.bounds.iter().map(bound).collect::<Vec<_>>()}),
        GenericParam::Lifetime(l)=>json!({"k":"Life","name":l.lifetime.to_string()}),
        GenericParam::Const(c)=>json!({"k":"Const","name":c.ident.to_string()}),
    }).collect::<Vec<_>>(),
    "where": g.where_clause.as_ref().map(|w| w.predicates.iter().map(|p| match p {
        WherePredicate::Type(t)=>json!({"ty":ty(&t.bounded_ty),"bounds":t.bounds.iter().map(bound).collect::<Vec<_>>()}),
        o=>json!({"verb":toks(o)}),
    }).collect::<Vec<_>>())})
}
fn bound(b: &TypeParamBound) -> Value {
    match b { TypeParamBound::Trait(t) => path(&t.path), o => json!({"k":"Verb","text":toks(o)}) }
}
fn sig(s: &Signature) -> Value {
    json!({"name":s.ident.to_string(),"generics":generics(&s.generics),
        "unsafe":s.unsafety.is_some(),"async":s.asyncness.is_some(),
        "inputs":s.inputs.iter().map(|i| match i {
            FnArg::Receiver(r)=>json!({"self":true,"ref":r.reference.is_some(),"mut":r.mutability.is_some(),"text":toks(r)}),
            FnArg::Typed(t)=>json!({"self":false,"pat":pat(&t.pat),"ty":ty(&t.ty)}),
        }).collect::<Vec<_>>(),
        "ret": match &s.output { ReturnType::Default => Value::Null, ReturnType::Type(_, t) => ty(t)}})
}
fn fields(f: &Fields) -> Value {
    match f {
        Fields::Named(n) => json!({"k":"Named","fields":n.named.iter().map(|f|json!({"name":f.ident.as_ref().unwrap().to_string(),"ty":ty(&f.ty),"attrs":attrs(&f.attrs)})).collect::<Vec<_>>()}),
        Fields::Unnamed(n) => json!({"k":"Unnamed","fields":n.unnamed.iter().map(|f|json!({"ty":ty(&f.ty)})).collect::<Vec<_>>()}),
        Fields::Unit => json!({"k":"Unit"}),
    }
}
fn item(i: &Item) -> Value {
    let mut v = match i {
        Item::Fn(f) => json!({"k":"Fn","sig":sig(&f.sig),"body":block(&f.block),"attrs":attrs(&f.attrs),"vis":toks(&f.vis),"end":lne(f)}),
        Item::Struct(s) => json!({"k":"Struct","name":s.ident.to_string(),"generics":generics(&s.generics),"fields":fields(&s.fields),"attrs":attrs(&s.attrs)}),
        Item::Enum(s) => json!({"k":"Enum","name":s.ident.to_string(),"generics":generics(&s.generics),"attrs":attrs(&s.attrs),
            "variants":s.variants.iter().map(|v|json!({"name":v.ident.to_string(),"fields":fields(&v.fields),"attrs":attrs(&v.attrs)})).collect::<Vec<_>>()}),
        Item::Impl(im) => json!({"k":"Impl","ty":ty(&im.self_ty),"generics":generics(&im.generics),"trait":im.trait_.as_ref().map(|(_,p,_)|path(p)),"attrs":attrs(&im.attrs),
            "items":im.items.iter().map(|x| match x {
                ImplItem::Fn(f)=>json!({"k":"Fn","sig":sig(&f.sig),"body":block(&f.block),"attrs":attrs(&f.attrs),"vis":toks(&f.vis),"line":ln(f),"end":lne(f)}),
                ImplItem::Type(t)=>json!({"k":"Type","name":t.ident.to_string(),"ty":ty(&t.ty)}),
                ImplItem::Const(c)=>json!({"k":"Const","name":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr)}),
                o=>json!({"k":"Verb","text":toks(o)}),
            }).collect::<Vec<_>>()}),
        Item::Trait(t) => json!({"k":"Trait","name":t.ident.to_string(),"items":t.items.iter().map(|x| match x {
                TraitItem::Fn(f)=>json!({"k":"Fn","sig":sig(&f.sig),"body":f.default.as_ref().map(block)}),
                o=>json!({"k":"Verb","text":toks(o)}),
            }).collect::<Vec<_>>()}),
        Item::Mod(m) => json!({"k":"Mod","name":m.ident.to_string(),"attrs":attrs(&m.attrs),"items":m.content.as_ref().map(|(_,c)|c.iter().map(item).collect::<Vec<_>>())}),
        Item::Use(u) => json!({"k":"Use","text":toks(&u.tree)}),
        Item::Const(c) => json!({"k":"Const","name":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr)}),
        Item::Static(c) => json!({"k":"Const","name":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr)}),
        o => json!({"k":"Verb","text":toks(o)}),
    };
    v["line"] = json!(ln(i));
    v
}
fn main() {
    let mut out = serde_json::Map::new();
    for f in std::env::args().skip(1) {
        let v = match std::fs::read_to_string(&f) {
            Err(e) => json!({"error":e.to_string()}),
            Ok(src) => match syn::parse_file(&src) {
                Ok(file) => json!({"items":file.items.iter().map(item).collect::<Vec<_>>()}),
                Err(e) => json!({"error":format!("{} at line {}",e,e.span().start().line)}),
            },
        };
        out.insert(f, v);
    }
    println!("{}", Value::Object(out));
}
