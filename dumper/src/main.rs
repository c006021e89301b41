//! Mechanical source -> JSON AST extraction with `syn`. No construct is rewritten;
//! doc comments / ordinary comments are the only thing dropped.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn ln<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}
fn attrs(a: &[Attribute]) -> Value {
    Value::Array(
        a.iter()
            .filter(|x| !x.path().is_ident("doc"))
            .map(|x| json!(x.meta.to_token_stream().to_string()))
            .collect(),
    )
}
fn path(p: &Path) -> Value {
    // list of segments, each [ident, [generic args]]
    Value::Array(
        p.segments
            .iter()
            .map(|s| {
                let g: Vec<Value> = match &s.arguments {
                    PathArguments::None => vec![],
                    PathArguments::AngleBracketed(a) => a
                        .args
                        .iter()
                        .map(|x| match x {
                            GenericArgument::Type(t) => ty(t),
                            o => json!({"k":"other","s":o.to_token_stream().to_string()}),
                        })
                        .collect(),
                    PathArguments::Parenthesized(a) => a.inputs.iter().map(ty).collect(),
                };
                json!([s.ident.to_string(), g])
            })
            .collect(),
    )
}
fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => {
            json!({"k":"path","p":path(&p.path),"q":p.qself.as_ref().map(|q| ty(&q.ty))})
        }
        Type::Reference(r) => json!({"k":"ref","m":r.mutability.is_some(),"t":ty(&r.elem)}),
        Type::Tuple(t) => json!({"k":"tuple","e":t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Array(a) => json!({"k":"array","t":ty(&a.elem),"n":expr(&a.len)}),
        Type::Slice(a) => json!({"k":"slice","t":ty(&a.elem)}),
        Type::ImplTrait(i) => json!({"k":"impl","s":i.to_token_stream().to_string()}),
        Type::Infer(_) => json!({"k":"infer"}),
        Type::Never(_) => json!({"k":"never"}),
        o => json!({"k":"other","s":o.to_token_stream().to_string()}),
    }
}
fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k":"ident","n":i.ident.to_string(),"ref":i.by_ref.is_some(),"mut":i.mutability.is_some(),"sub":i.subpat.as_ref().map(|s| pat(&s.1))}),
        Pat::Wild(_) => json!({"k":"wild"}),
        Pat::Rest(_) => json!({"k":"rest"}),
        Pat::Tuple(t) => json!({"k":"tuple","e":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => json!({"k":"tstruct","p":path(&t.path),"e":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Path(p) => json!({"k":"path","p":path(&p.path)}),
        Pat::Struct(s) => json!({"k":"struct","p":path(&s.path),"f":s.fields.iter().map(|f| json!([f.member.to_token_stream().to_string(), pat(&f.pat)])).collect::<Vec<_>>()}),
        Pat::Lit(l) => json!({"k":"lit","v":lit(&l.lit)}),
        Pat::Or(o) => json!({"k":"or","e":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Reference(r) => json!({"k":"ref","t":pat(&r.pat)}),
        Pat::Type(t) => json!({"k":"typed","t":ty(&t.ty),"p":pat(&t.pat)}),
        Pat::Range(r) => json!({"k":"range","a":r.start.as_ref().map(|e| expr(e)),"b":r.end.as_ref().map(|e| expr(e)),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
        Pat::Slice(s) => json!({"k":"slice","e":s.elems.iter().map(pat).collect::<Vec<_>>()}),
        o => json!({"k":"other","s":o.to_token_stream().to_string()}),
    }
}
fn lit(l: &Lit) -> Value {
    match l {
        Lit::Int(i) => json!({"t":"int","v":i.base10_digits(),"s":i.suffix()}),
        Lit::Bool(b) => json!({"t":"bool","v":b.value}),
        Lit::Str(s) => json!({"t":"str","v":s.value()}),
        Lit::ByteStr(s) => json!({"t":"bytes","v":String::from_utf8_lossy(&s.value()).to_string()}),
        Lit::Char(c) => json!({"t":"char","v":c.value().to_string()}),
        Lit::Byte(c) => json!({"t":"int","v":c.value().to_string(),"s":"u8"}),
        o => json!({"t":"other","v":o.to_token_stream().to_string()}),
    }
}
fn mac(m: &Macro, line: usize) -> Value {
    let name = m.path.segments.last().unwrap().ident.to_string();
    let ts: TokenStream = m.tokens.clone();
    if name == "matches" || name == "assert_matches" {
        let p = |input: parse::ParseStream| -> syn::Result<Value> {
            let e: Expr = input.parse()?;
            input.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(input)?;
            let g: Option<Expr> = if input.peek(Token![if]) {
                input.parse::<Token![if]>()?;
                Some(input.parse()?)
            } else {
                None
            };
            let _ = input.parse::<Option<Token![,]>>()?;
            Ok(json!({"k":"matches","e":expr(&e),"p":pat(&p),"g":g.as_ref().map(expr),"l":line}))
        };
        if let Ok(v) = p.parse2(ts.clone()) {
            return v;
        }
    }
    let parser = Punctuated::<Expr, Token![,]>::parse_terminated;
    match parser.parse2(ts.clone()) {
        Ok(a) => json!({"k":"macro","n":name,"a":a.iter().map(expr).collect::<Vec<_>>(),"l":line}),
        Err(_) => {
            // keep token text for the consumer to refuse
            let toks: Vec<String> = ts
                .into_iter()
                .map(|t| match t {
                    TokenTree::Ident(i) => i.to_string(),
                    o => o.to_string(),
                })
                .collect();
            json!({"k":"macro","n":name,"a":Value::Null,"raw":toks.join(" "),"l":line})
        }
    }
}
fn block(b: &Block) -> Value {
    Value::Array(b.stmts.iter().map(stmt).collect())
}
fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => json!({"k":"let","p":pat(&l.pat),"i":l.init.as_ref().map(|i| expr(&i.expr)),
            "else":l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|d| expr(&d.1))),"l":ln(l)}),
        Stmt::Expr(e, semi) => json!({"k":"expr","e":expr(e),"semi":semi.is_some(),"l":ln(e)}),
        Stmt::Macro(m) => json!({"k":"expr","e":mac(&m.mac, ln(m)),"semi":m.semi_token.is_some(),"l":ln(m)}),
        Stmt::Item(i) => json!({"k":"item","i":item(i),"l":ln(i)}),
    }
}
fn expr(e: &Expr) -> Value {
    let l = ln(e);
    match e {
        Expr::Lit(x) => json!({"k":"lit","v":lit(&x.lit),"l":l}),
        Expr::Path(p) => json!({"k":"path","p":path(&p.path),"q":p.qself.as_ref().map(|q| ty(&q.ty)),"l":l}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Unary(u) => json!({"k":"un","o":u.op.to_token_stream().to_string(),"e":expr(&u.expr),"l":l}),
        Expr::Binary(b) => json!({"k":"bin","o":b.op.to_token_stream().to_string(),"a":expr(&b.left),"b":expr(&b.right),"l":l}),
        Expr::Assign(a) => json!({"k":"assign","a":expr(&a.left),"b":expr(&a.right),"l":l}),
        Expr::Reference(r) => json!({"k":"ref","m":r.mutability.is_some(),"e":expr(&r.expr),"l":l}),
        Expr::Field(f) => json!({"k":"field","e":expr(&f.base),"n":f.member.to_token_stream().to_string(),"l":l}),
        Expr::Call(c) => json!({"k":"call","f":expr(&c.func),"a":c.args.iter().map(expr).collect::<Vec<_>>(),"l":l}),
        Expr::MethodCall(m) => json!({"k":"mcall","r":expr(&m.receiver),"n":m.method.to_string(),
            "t":m.turbofish.as_ref().map(|t| t.args.iter().map(|x| match x { GenericArgument::Type(t)=>ty(t), o=>json!({"k":"other","s":o.to_token_stream().to_string()})}).collect::<Vec<_>>()),
            "a":m.args.iter().map(expr).collect::<Vec<_>>(),"l":m.method.span().start().line}),
        Expr::Block(b) => json!({"k":"block","b":block(&b.block),"l":l,"label":b.label.as_ref().map(|x| x.name.to_string())}),
        Expr::Unsafe(b) => json!({"k":"block","b":block(&b.block),"l":l,"unsafe":true}),
        Expr::If(i) => json!({"k":"if","c":expr(&i.cond),"t":block(&i.then_branch),"e":i.else_branch.as_ref().map(|e| expr(&e.1)),"l":l}),
        Expr::Let(x) => json!({"k":"letc","p":pat(&x.pat),"e":expr(&x.expr),"l":l}),
        Expr::Match(m) => json!({"k":"match","e":expr(&m.expr),"arms":m.arms.iter().map(|a| json!({"p":pat(&a.pat),"g":a.guard.as_ref().map(|g| expr(&g.1)),"b":expr(&a.body)})).collect::<Vec<_>>(),"l":l}),
        Expr::While(w) => json!({"k":"while","c":expr(&w.cond),"b":block(&w.body),"l":l,"label":w.label.as_ref().map(|x| x.name.to_string())}),
        Expr::Loop(w) => json!({"k":"loop","b":block(&w.body),"l":l,"label":w.label.as_ref().map(|x| x.name.to_string())}),
        Expr::ForLoop(f) => json!({"k":"for","p":pat(&f.pat),"e":expr(&f.expr),"b":block(&f.body),"l":l,"label":f.label.as_ref().map(|x| x.name.to_string())}),
        Expr::Return(r) => json!({"k":"return","e":r.expr.as_ref().map(|e| expr(e)),"l":l}),
        Expr::Break(r) => json!({"k":"break","e":r.expr.as_ref().map(|e| expr(e)),"label":r.label.as_ref().map(|x| x.to_string()),"l":l}),
        Expr::Continue(r) => json!({"k":"continue","label":r.label.as_ref().map(|x| x.to_string()),"l":l}),
        Expr::Tuple(t) => json!({"k":"tuple","e":t.elems.iter().map(expr).collect::<Vec<_>>(),"l":l}),
        Expr::Array(t) => json!({"k":"array","e":t.elems.iter().map(expr).collect::<Vec<_>>(),"l":l}),
        Expr::Repeat(t) => json!({"k":"repeat","e":expr(&t.expr),"n":expr(&t.len),"l":l}),
        Expr::Index(i) => json!({"k":"index","e":expr(&i.expr),"i":expr(&i.index),"l":l}),
        Expr::Struct(s) => json!({"k":"struct","p":path(&s.path),"f":s.fields.iter().map(|f| json!([f.member.to_token_stream().to_string(), expr(&f.expr)])).collect::<Vec<_>>(),"rest":s.rest.as_ref().map(|e| expr(e)),"l":l}),
        Expr::Closure(c) => json!({"k":"closure","p":c.inputs.iter().map(pat).collect::<Vec<_>>(),"b":expr(&c.body),"l":l}),
        Expr::Cast(c) => json!({"k":"cast","e":expr(&c.expr),"t":ty(&c.ty),"l":l}),
        Expr::Range(r) => json!({"k":"range","a":r.start.as_ref().map(|e| expr(e)),"b":r.end.as_ref().map(|e| expr(e)),"incl":matches!(r.limits, RangeLimits::Closed(_)),"l":l}),
        Expr::Try(t) => json!({"k":"try","e":expr(&t.expr),"l":l}),
        Expr::Macro(m) => mac(&m.mac, l),
        o => json!({"k":"other","s":o.to_token_stream().to_string(),"l":l}),
    }
}
fn sig(s: &Signature) -> Value {
    let a: Vec<Value> = s
        .inputs
        .iter()
        .map(|i| match i {
            FnArg::Receiver(r) => json!({"self":true,"ref":r.reference.is_some(),"m":r.mutability.is_some()}),
            FnArg::Typed(t) => json!({"p":pat(&t.pat),"t":ty(&t.ty),"attrs":attrs(&t.attrs)}),
        })
        .collect();
    json!({"n":s.ident.to_string(),"a":a,"r":match &s.output { ReturnType::Default=>Value::Null, ReturnType::Type(_,t)=>ty(t)},
        "g":s.generics.params.iter().map(|p| match p { GenericParam::Type(t)=>t.ident.to_string(), o=>o.to_token_stream().to_string()}).collect::<Vec<_>>()})
}
fn item(i: &Item) -> Value {
    match i {
        Item::Fn(f) => json!({"k":"fn","sig":sig(&f.sig),"b":block(&f.block),"attrs":attrs(&f.attrs),"l":ln(f)}),
        Item::Trait(t) => json!({"k":"trait","n":t.ident.to_string(),"attrs":attrs(&t.attrs),
            "super":t.supertraits.iter().map(|s| s.to_token_stream().to_string().replace(' ', "")).collect::<Vec<_>>(),
            "fns":t.items.iter().filter_map(|x| match x { TraitItem::Fn(f)=>Some(json!({"k":"fn","sig":sig(&f.sig),"b":f.default.as_ref().map(block),"attrs":attrs(&f.attrs),"l":ln(&f.sig)})), _=>None}).collect::<Vec<_>>(),"l":ln(t)}),
        Item::Impl(t) => json!({"k":"impl","ty":ty(&t.self_ty),"trait":t.trait_.as_ref().map(|x| path(&x.1)),
            "fns":t.items.iter().filter_map(|x| match x { ImplItem::Fn(f)=>Some(json!({"k":"fn","sig":sig(&f.sig),"b":block(&f.block),"attrs":attrs(&f.attrs),"l":ln(&f.sig)})), _=>None}).collect::<Vec<_>>(),
            "consts":t.items.iter().filter_map(|x| match x { ImplItem::Const(c)=>Some(json!({"n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)})), _=>None}).collect::<Vec<_>>(),"l":ln(t)}),
        Item::Struct(s) => json!({"k":"struct","n":s.ident.to_string(),"attrs":attrs(&s.attrs),"g":s.generics.params.iter().map(|p| p.to_token_stream().to_string()).collect::<Vec<_>>(),
            "f":s.fields.iter().enumerate().map(|(n,f)| json!([f.ident.as_ref().map(|i| i.to_string()).unwrap_or(n.to_string()), ty(&f.ty)])).collect::<Vec<_>>()}),
        Item::Enum(s) => json!({"k":"enum","n":s.ident.to_string(),
            "v":s.variants.iter().map(|v| json!({"n":v.ident.to_string(),"f":v.fields.iter().enumerate().map(|(n,f)| json!([f.ident.as_ref().map(|i| i.to_string()).unwrap_or(n.to_string()), ty(&f.ty)])).collect::<Vec<_>>()})).collect::<Vec<_>>()}),
        Item::Const(c) => json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)}),
        Item::Static(c) => json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)}),
        Item::Type(t) => json!({"k":"type","n":t.ident.to_string(),"t":ty(&t.ty)}),
        Item::Mod(m) => json!({"k":"mod","n":m.ident.to_string(),"attrs":attrs(&m.attrs),"items":m.content.as_ref().map(|c| c.1.iter().map(item).collect::<Vec<_>>())}),
        Item::Use(u) => json!({"k":"use","s":u.tree.to_token_stream().to_string().replace(' ', "")}),
        _ => json!({"k":"skip"}),
    }
}
fn main() {
    let mut out = vec![];
    for f in std::env::args().skip(1) {
        let src = std::fs::read_to_string(&f).expect("read");
        match syn::parse_file(&src) {
            Ok(file) => out.push(json!({"file":f,"attrs":attrs(&file.attrs),"items":file.items.iter().map(item).collect::<Vec<_>>()})),
            Err(e) => {
                eprintln!("PARSE {}: {}", f, e);
                std::process::exit(3);
            }
        }
    }
    println!("{}", serde_json::to_string(&out).unwrap());
}
