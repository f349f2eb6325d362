//! Dump Rust source files as a JSON syntax tree (with line numbers).
//! usage: rsdump FILE...   -> prints {"files": {path: {"items":[...], "error": null}}}
use proc_macro2::{Delimiter, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::*;

// ---------- tiny JSON writer ----------
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn opt(v: Option<String>) -> String {
    v.unwrap_or_else(|| "null".into())
}
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => {{
        let mut s = String::from("{");
        let mut first = true;
        $( if !first { s.push(','); } first = false; s.push_str(&js($k)); s.push(':'); s.push_str(&$v); )*
        let _ = first;
        s.push('}');
        s
    }};
}
fn ln(s: Span) -> String {
    s.start().line.to_string()
}
fn b(x: bool) -> String {
    (if x { "true" } else { "false" }).into()
}
fn toks(t: impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

// ---------- token trees ----------
fn tts(ts: TokenStream) -> String {
    let mut v = vec![];
    for t in ts {
        v.push(match t {
            TokenTree::Ident(i) => obj! {"t": js("ident"), "v": js(&i.to_string()), "l": ln(i.span())},
            TokenTree::Punct(p) => obj! {"t": js("punct"), "v": js(&p.as_char().to_string()),
                "j": b(p.spacing() == Spacing::Joint), "l": ln(p.span())},
            TokenTree::Literal(l) => {
                let lit: Result<Lit> = syn::parse_str(&l.to_string());
                let lj = match lit { Ok(x) => lit_j(&x), Err(_) => "null".into() };
                obj! {"t": js("lit"), "v": js(&l.to_string()), "lit": lj, "l": ln(l.span())}
            }
            TokenTree::Group(g) => {
                let d = match g.delimiter() { Delimiter::Parenthesis => "(", Delimiter::Brace => "{", Delimiter::Bracket => "[", Delimiter::None => "" };
                let blk = if g.delimiter() == Delimiter::Brace {
                    let st = g.stream();
                    match Block::parse_within.parse2(st) {
                        Ok(stmts) => Some(arr(stmts.iter().map(stmt).collect())),
                        Err(_) => None,
                    }
                } else { None };
                let exprs = if g.delimiter() == Delimiter::Parenthesis {
                    Punctuated::<Expr, Token![,]>::parse_terminated.parse2(g.stream()).ok()
                        .map(|p| arr(p.iter().map(expr).collect()))
                } else { None };
                obj! {"t": js("group"), "d": js(d), "c": tts(g.stream()), "stmts": opt(blk), "exprs": opt(exprs), "l": ln(g.span_open())}
            }
        });
    }
    arr(v)
}

// ---------- literals, paths, types ----------
fn lit_j(l: &Lit) -> String {
    match l {
        Lit::Str(s) => obj! {"t": js("str"), "v": js(&s.value())},
        Lit::ByteStr(s) => obj! {"t": js("bytestr"), "v": js(&String::from_utf8_lossy(&s.value()))},
        Lit::CStr(s) => obj! {"t": js("cstr"), "v": js(&s.value().to_string_lossy())},
        Lit::Byte(x) => obj! {"t": js("byte"), "v": x.value().to_string()},
        Lit::Char(c) => obj! {"t": js("char"), "v": js(&c.value().to_string())},
        Lit::Int(i) => obj! {"t": js("int"), "v": i.base10_digits().to_string(), "s": js(i.suffix())},
        Lit::Float(f) => obj! {"t": js("float"), "v": js(f.base10_digits())},
        Lit::Bool(x) => obj! {"t": js("bool"), "v": b(x.value)},
        Lit::Verbatim(v) => obj! {"t": js("verb"), "v": js(&v.to_string())},
        _ => obj! {"t": js("verb"), "v": js("?")},
    }
}
fn path_j(p: &syn::Path) -> String {
    arr(p.segments.iter().map(|s| {
        let g = match &s.arguments {
            PathArguments::AngleBracketed(a) => arr(a.args.iter().map(|x| match x {
                GenericArgument::Type(t) => ty(t),
                GenericArgument::AssocType(t) => obj! {"k": js("assoc"), "name": js(&t.ident.to_string()), "ty": ty(&t.ty)},
                o => obj! {"k": js("other"), "s": js(&toks(o))},
            }).collect()),
            PathArguments::Parenthesized(a) => obj! {"in": arr(a.inputs.iter().map(ty).collect()),
                "out": match &a.output { ReturnType::Default => "null".to_string(), ReturnType::Type(_, t) => ty(t) }},
            PathArguments::None => "null".into(),
        };
        obj! {"n": js(&s.ident.to_string()), "g": g}
    }).collect())
}
fn ty(t: &Type) -> String {
    match t {
        Type::Path(p) => obj! {"k": js("path"), "q": opt(p.qself.as_ref().map(|q| ty(&q.ty))), "p": path_j(&p.path), "s": js(&toks(t))},
        Type::Reference(r) => obj! {"k": js("ref"), "mut": b(r.mutability.is_some()), "e": ty(&r.elem), "s": js(&toks(t))},
        Type::Tuple(x) => obj! {"k": js("tuple"), "e": arr(x.elems.iter().map(ty).collect()), "s": js(&toks(t))},
        Type::Slice(x) => obj! {"k": js("slice"), "e": ty(&x.elem), "s": js(&toks(t))},
        Type::Array(x) => obj! {"k": js("array"), "e": ty(&x.elem), "len": expr(&x.len), "s": js(&toks(t))},
        Type::Paren(x) => ty(&x.elem),
        Type::Group(x) => ty(&x.elem),
        o => obj! {"k": js("other"), "s": js(&toks(o))},
    }
}
fn ret(r: &ReturnType) -> String {
    match r { ReturnType::Default => "null".into(), ReturnType::Type(_, t) => ty(t) }
}

// ---------- patterns ----------
fn pat(p: &Pat) -> String {
    match p {
        Pat::Ident(i) => obj! {"k": js("ident"), "ref": b(i.by_ref.is_some()), "mut": b(i.mutability.is_some()),
            "n": js(&i.ident.to_string()), "sub": opt(i.subpat.as_ref().map(|x| pat(&x.1))), "l": ln(i.ident.span())},
        Pat::Wild(_) => obj! {"k": js("wild")},
        Pat::Rest(_) => obj! {"k": js("rest")},
        Pat::Tuple(t) => obj! {"k": js("tuple"), "e": arr(t.elems.iter().map(pat).collect())},
        Pat::TupleStruct(t) => obj! {"k": js("ts"), "p": path_j(&t.path), "e": arr(t.elems.iter().map(pat).collect())},
        Pat::Struct(s) => obj! {"k": js("struct"), "p": path_j(&s.path), "rest": b(s.rest.is_some()),
            "f": arr(s.fields.iter().map(|f| obj!{"n": js(&toks(&f.member)), "p": pat(&f.pat)}).collect())},
        Pat::Path(x) => obj! {"k": js("path"), "p": path_j(&x.path)},
        Pat::Lit(l) => obj! {"k": js("lit"), "v": lit_j(&l.lit)},
        Pat::Or(o) => obj! {"k": js("or"), "e": arr(o.cases.iter().map(pat).collect())},
        Pat::Range(r) => obj! {"k": js("range"), "lo": opt(r.start.as_ref().map(|e| expr(e))), "hi": opt(r.end.as_ref().map(|e| expr(e))),
            "closed": b(matches!(r.limits, RangeLimits::Closed(_)))},
        Pat::Reference(r) => pat(&r.pat),
        Pat::Paren(x) => pat(&x.pat),
        Pat::Slice(s) => obj! {"k": js("slice"), "e": arr(s.elems.iter().map(pat).collect())},
        Pat::Type(t) => obj! {"k": js("type"), "p": pat(&t.pat), "ty": ty(&t.ty)},
        o => obj! {"k": js("other"), "s": js(&toks(o))},
    }
}

// ---------- expressions ----------
fn block(bk: &Block) -> String {
    arr(bk.stmts.iter().map(stmt).collect())
}
fn label(l: &Option<Label>) -> String {
    opt(l.as_ref().map(|x| js(&x.name.ident.to_string())))
}
struct MatchesArgs { e: Expr, p: Pat, g: Option<Expr> }
impl Parse for MatchesArgs {
    fn parse(i: ParseStream) -> Result<Self> {
        let e: Expr = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
        let _: Option<Token![,]> = i.parse()?;
        Ok(MatchesArgs { e, p, g })
    }
}
struct RepeatArgs { e: Expr, n: Expr }
impl Parse for RepeatArgs {
    fn parse(i: ParseStream) -> Result<Self> {
        let e: Expr = i.parse()?;
        i.parse::<Token![;]>()?;
        let n: Expr = i.parse()?;
        Ok(RepeatArgs { e, n })
    }
}
fn mac(m: &Macro) -> String {
    let name = m.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
    let l = ln(m.path.segments.last().map(|s| s.ident.span()).unwrap_or_else(Span::call_site));
    let short = name.rsplit("::").next().unwrap_or("").to_string();
    if short == "matches" || short == "assert_matches" {
        if let Ok(a) = m.parse_body::<MatchesArgs>() {
            return obj! {"k": js("matches"), "e": expr(&a.e), "p": pat(&a.p), "g": opt(a.g.as_ref().map(expr)), "l": l};
        }
    }
    if short == "vec" {
        if let Ok(a) = m.parse_body::<RepeatArgs>() {
            return obj! {"k": js("repeat"), "e": expr(&a.e), "n": expr(&a.n), "l": l};
        }
    }
    if let Some(x) = expand(&short, &m.tokens) {
        DEPTH.with(|d| d.set(d.get() + 1));
        let r = match syn::parse2::<Expr>(x.clone()) {
            Ok(e) => Some(expr(&e)),
            Err(_) => Block::parse_within.parse2(x).ok().map(|v| obj! {"k": js("block"), "label": "null".to_string(), "b": arr(v.iter().map(stmt).collect()), "l": l.clone()}),
        };
        DEPTH.with(|d| d.set(d.get() - 1));
        if let Some(r) = r { return r; }
    }
    let args = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()
        .map(|p| arr(p.iter().map(expr).collect()));
    let raw = if args.is_none() { tts(m.tokens.clone()) } else { "null".into() };
    obj! {"k": js("macro"), "n": js(&short), "full": js(&name), "args": opt(args), "toks": raw, "l": l}
}
fn expr(e: &Expr) -> String {
    use syn::spanned::Spanned;
    let l = ln(e.span());
    match e {
        Expr::Lit(x) => obj! {"k": js("lit"), "v": lit_j(&x.lit), "l": l},
        Expr::Path(p) => obj! {"k": js("path"), "p": path_j(&p.path), "q": opt(p.qself.as_ref().map(|q| ty(&q.ty))), "l": l},
        Expr::Call(c) => obj! {"k": js("call"), "f": expr(&c.func), "a": arr(c.args.iter().map(expr).collect()), "l": l},
        Expr::MethodCall(c) => obj! {"k": js("mcall"), "r": expr(&c.receiver), "m": js(&c.method.to_string()),
            "tf": opt(c.turbofish.as_ref().map(|t| arr(t.args.iter().map(|x| match x { GenericArgument::Type(t) => ty(t), o => obj!{"k": js("other"), "s": js(&toks(o))} }).collect()))),
            "a": arr(c.args.iter().map(expr).collect()), "l": ln(c.method.span())},
        Expr::Field(f) => obj! {"k": js("field"), "e": expr(&f.base), "f": js(&toks(&f.member)), "l": l},
        Expr::Index(i) => obj! {"k": js("index"), "e": expr(&i.expr), "i": expr(&i.index), "l": l},
        Expr::Unary(u) => obj! {"k": js("unary"), "op": js(&toks(u.op)), "e": expr(&u.expr), "l": l},
        Expr::Binary(x) => {
            let op = toks(x.op);
            if op.ends_with('=') && !matches!(op.as_str(), "==" | "<=" | ">=" | "!=") {
                obj! {"k": js("assignop"), "op": js(op.trim_end_matches('=')), "a": expr(&x.left), "b": expr(&x.right), "l": l}
            } else {
                obj! {"k": js("binary"), "op": js(&op), "a": expr(&x.left), "b": expr(&x.right), "l": l}
            }
        }
        Expr::Assign(a) => obj! {"k": js("assign"), "a": expr(&a.left), "b": expr(&a.right), "l": l},
        Expr::Reference(r) => obj! {"k": js("ref"), "mut": b(r.mutability.is_some()), "e": expr(&r.expr), "l": l},
        Expr::Block(x) => obj! {"k": js("block"), "label": label(&x.label), "b": block(&x.block), "l": l},
        Expr::Unsafe(x) => obj! {"k": js("block"), "label": "null".to_string(), "b": block(&x.block), "l": l},
        Expr::If(i) => obj! {"k": js("if"), "c": expr(&i.cond), "t": block(&i.then_branch), "e": opt(i.else_branch.as_ref().map(|x| expr(&x.1))), "l": l},
        Expr::Let(x) => obj! {"k": js("let"), "p": pat(&x.pat), "e": expr(&x.expr), "l": l},
        Expr::Match(m) => obj! {"k": js("match"), "e": expr(&m.expr), "arms": arr(m.arms.iter().map(|a|
            obj!{"p": pat(&a.pat), "g": opt(a.guard.as_ref().map(|g| expr(&g.1))), "b": expr(&a.body), "l": ln(a.pat.span())}).collect()), "l": l},
        Expr::While(w) => obj! {"k": js("while"), "label": label(&w.label), "c": expr(&w.cond), "b": block(&w.body), "l": l},
        Expr::Loop(w) => obj! {"k": js("loop"), "label": label(&w.label), "b": block(&w.body), "l": l},
        Expr::ForLoop(f) => obj! {"k": js("for"), "label": label(&f.label), "p": pat(&f.pat), "e": expr(&f.expr), "b": block(&f.body), "l": l},
        Expr::Break(x) => obj! {"k": js("break"), "label": opt(x.label.as_ref().map(|y| js(&y.ident.to_string()))), "e": opt(x.expr.as_ref().map(|y| expr(y))), "l": l},
        Expr::Continue(x) => obj! {"k": js("continue"), "label": opt(x.label.as_ref().map(|y| js(&y.ident.to_string()))), "l": l},
        Expr::Return(x) => obj! {"k": js("return"), "e": opt(x.expr.as_ref().map(|y| expr(y))), "l": l},
        Expr::Closure(c) => obj! {"k": js("closure"), "ps": arr(c.inputs.iter().map(pat).collect()), "b": expr(&c.body), "l": l},
        Expr::Tuple(t) => obj! {"k": js("tuple"), "e": arr(t.elems.iter().map(expr).collect()), "l": l},
        Expr::Array(t) => obj! {"k": js("array"), "e": arr(t.elems.iter().map(expr).collect()), "l": l},
        Expr::Repeat(r) => obj! {"k": js("repeat"), "e": expr(&r.expr), "n": expr(&r.len), "l": l},
        Expr::Struct(s) => obj! {"k": js("struct"), "p": path_j(&s.path), "f": arr(s.fields.iter().map(|f| obj!{"n": js(&toks(&f.member)), "e": expr(&f.expr)}).collect()),
            "rest": opt(s.rest.as_ref().map(|x| expr(x))), "l": l},
        Expr::Range(r) => obj! {"k": js("range"), "lo": opt(r.start.as_ref().map(|x| expr(x))), "hi": opt(r.end.as_ref().map(|x| expr(x))),
            "closed": b(matches!(r.limits, RangeLimits::Closed(_))), "l": l},
        Expr::Cast(c) => obj! {"k": js("cast"), "e": expr(&c.expr), "ty": ty(&c.ty), "l": l},
        Expr::Try(t) => obj! {"k": js("try"), "e": expr(&t.expr), "l": l},
        Expr::Await(t) => obj! {"k": js("await"), "e": expr(&t.base), "l": l},
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Macro(m) => mac(&m.mac),
        Expr::Async(x) => obj! {"k": js("block"), "label": "null".to_string(), "b": block(&x.block), "l": l},
        Expr::Const(x) => obj! {"k": js("block"), "label": "null".to_string(), "b": block(&x.block), "l": l},
        o => obj! {"k": js("other"), "s": js(&toks(o)), "l": l},
    }
}
fn stmt(s: &Stmt) -> String {
    match s {
        Stmt::Local(x) => {
            use syn::spanned::Spanned;
            let (init, els) = match &x.init { Some(i) => (Some(expr(&i.expr)), i.diverge.as_ref().map(|d| expr(&d.1))), None => (None, None) };
            obj! {"k": js("local"), "p": pat(&x.pat), "e": opt(init), "else": opt(els), "l": ln(x.span())}
        }
        Stmt::Item(i) => obj! {"k": js("item"), "i": item(i)},
        Stmt::Expr(e, semi) => obj! {"k": js("expr"), "e": expr(e), "semi": b(semi.is_some())},
        Stmt::Macro(m) => obj! {"k": js("expr"), "e": mac(&m.mac), "semi": b(m.semi_token.is_some())},
    }
}

// ---------- macro_rules expansion ----------
thread_local! {
    static MACROS: std::cell::RefCell<std::collections::HashMap<String, Vec<(Vec<TokenTree>, TokenStream)>>> = Default::default();
    static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
#[derive(Clone)]
enum Bind { One(TokenStream), Many(Vec<Binds>) }
type Binds = std::collections::HashMap<String, Bind>;

fn collect_macros(ts: TokenStream) {
    // textual: `macro_rules ! name { (pattern) => { body } ; ... }` anywhere in the file
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            if id == "macro_rules" && i + 3 < v.len() {
                if let (TokenTree::Ident(n), TokenTree::Group(g)) = (&v[i + 2], &v[i + 3]) {
                    let body: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut arms = vec![];
                    let mut k = 0;
                    while k < body.len() {
                        if let TokenTree::Group(p) = &body[k] {
                            if let Some(TokenTree::Group(q)) = body.get(k + 3) {
                                arms.push((p.stream().into_iter().collect(), q.stream()));
                                k += 4;
                                continue;
                            }
                        }
                        k += 1;
                    }
                    MACROS.with(|m| m.borrow_mut().insert(n.to_string(), arms));
                    i += 4;
                    continue;
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            collect_macros(g.stream());
        }
        i += 1;
    }
}
fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}
fn is_p(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
/// the pieces of `$( ... ) sep op` that starts at pat[i]: (inner, separator, op, next index)
fn rep(pat: &[TokenTree], i: usize) -> Option<(Vec<TokenTree>, Option<TokenTree>, char, usize)> {
    if !is_p(pat.get(i), '$') { return None; }
    let Some(TokenTree::Group(g)) = pat.get(i + 1) else { return None };
    if g.delimiter() != Delimiter::Parenthesis { return None; }
    let inner = g.stream().into_iter().collect();
    let mut j = i + 2;
    let mut sep = None;
    loop {
        match pat.get(j) {
            Some(TokenTree::Punct(p)) if matches!(p.as_char(), '*' | '+' | '?') => return Some((inner, sep, p.as_char(), j + 1)),
            Some(t) if sep.is_none() => { sep = Some(t.clone()); j += 1; }
            _ => return None,
        }
    }
}
/// matches a prefix of `inp`; returns the number of tokens consumed
fn mtch(pat: &[TokenTree], inp: &[TokenTree], out: &mut Binds) -> Option<usize> {
    let (mut i, mut k) = (0, 0);
    while i < pat.len() {
        if let Some((inner, sep, op, next)) = rep(pat, i) {
            let mut all = vec![];
            loop {
                if op == '?' && all.len() == 1 { break; }
                let mut kk = k;
                if !all.is_empty() {
                    if let Some(s) = &sep {
                        match inp.get(kk) { Some(t) if same(t, s) => kk += 1, _ => break }
                    }
                }
                if kk >= inp.len() { break; }
                let mut b = Binds::new();
                match mtch(&inner, &inp[kk..], &mut b) {
                    Some(n) if n > 0 => { k = kk + n; all.push(b); }
                    _ => break,
                }
            }
            if op == '+' && all.is_empty() { return None; }
            // every name bound inside is a repetition
            let mut names = vec![];
            vars(&inner, &mut names);
            for n in names { out.insert(n, Bind::Many(all.clone())); }
            i = next;
            continue;
        }
        if is_p(pat.get(i), '$') && is_p(pat.get(i + 2), ':') {
            if let (Some(TokenTree::Ident(n)), Some(TokenTree::Ident(kind))) = (pat.get(i + 1), pat.get(i + 3)) {
                let used;
                let val: TokenStream;
                match kind.to_string().as_str() {
                    "ident" => { match inp.get(k) { Some(t @ TokenTree::Ident(_)) => { val = t.clone().into(); used = 1; } _ => return None } }
                    "literal" => {
                        if is_p(inp.get(k), '-') { val = inp[k..(k + 2).min(inp.len())].iter().cloned().collect(); used = 2; }
                        else { match inp.get(k) { Some(t @ TokenTree::Literal(_)) => { val = t.clone().into(); used = 1; }
                               Some(t @ TokenTree::Ident(x)) if x == "true" || x == "false" => { val = t.clone().into(); used = 1; } _ => return None } }
                    }
                    "tt" => { val = inp.get(k)?.clone().into(); used = 1; }
                    kd => {
                        let rest: TokenStream = inp[k..].iter().cloned().collect();
                        let total = inp.len() - k;
                        let kd = kd.to_string();
                        let r = (move |s: ParseStream| -> Result<(TokenStream, usize)> {
                            let v = match kd.as_str() {
                                "expr" => s.parse::<Expr>()?.to_token_stream(),
                                "ty" => s.parse::<Type>()?.to_token_stream(),
                                "path" => s.parse::<syn::Path>()?.to_token_stream(),
                                "pat" => Pat::parse_multi_with_leading_vert(s)?.to_token_stream(),
                                "block" => s.parse::<Block>()?.to_token_stream(),
                                "stmt" => s.parse::<Stmt>()?.to_token_stream(),
                                "item" => s.parse::<Item>()?.to_token_stream(),
                                "vis" => s.parse::<Visibility>()?.to_token_stream(),
                                "lifetime" => s.parse::<Lifetime>()?.to_token_stream(),
                                _ => return Err(s.error("fragment")),
                            };
                            let left: TokenStream = s.parse()?;
                            Ok((v, left.into_iter().count()))
                        }).parse2(rest).ok()?;
                        used = total - r.1;
                        val = TokenTree::Group(proc_macro2::Group::new(Delimiter::None, r.0)).into();
                    }
                }
                out.insert(n.to_string(), Bind::One(val));
                k += used;
                i += 4;
                continue;
            }
        }
        match (&pat[i], inp.get(k)) {
            (TokenTree::Group(a), Some(TokenTree::Group(b))) if a.delimiter() == b.delimiter() => {
                let p: Vec<TokenTree> = a.stream().into_iter().collect();
                let q: Vec<TokenTree> = b.stream().into_iter().collect();
                if mtch(&p, &q, out)? != q.len() { return None; }
            }
            (a, Some(b)) if same(a, b) => {}
            _ => return None,
        }
        i += 1;
        k += 1;
    }
    Some(k)
}
fn vars(pat: &[TokenTree], out: &mut Vec<String>) {
    for (i, t) in pat.iter().enumerate() {
        if let TokenTree::Group(g) = t { let v: Vec<TokenTree> = g.stream().into_iter().collect(); vars(&v, out); }
        if is_p(Some(t), '$') && is_p(pat.get(i + 2), ':') {
            if let Some(TokenTree::Ident(n)) = pat.get(i + 1) { out.push(n.to_string()); }
        }
    }
}
fn used_vars(body: &[TokenTree], out: &mut Vec<String>) {
    for (i, t) in body.iter().enumerate() {
        if let TokenTree::Group(g) = t { let v: Vec<TokenTree> = g.stream().into_iter().collect(); used_vars(&v, out); }
        if is_p(Some(t), '$') { if let Some(TokenTree::Ident(n)) = body.get(i + 1) { out.push(n.to_string()); } }
    }
}
fn subst(body: &[TokenTree], b: &Binds) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < body.len() {
        if let Some((inner, sep, _op, next)) = rep(body, i) {
            let mut names = vec![];
            used_vars(&inner, &mut names);
            let many = names.iter().find_map(|n| match b.get(n) { Some(Bind::Many(v)) => Some(v.clone()), _ => None })?;
            for (k, one) in many.iter().enumerate() {
                if k > 0 { if let Some(s) = &sep { out.extend([s.clone()]); } }
                let mut bb = b.clone();
                for n in &names { if let Some(v) = one.get(n) { bb.insert(n.clone(), v.clone()); } }
                out.extend(subst(&inner, &bb)?);
            }
            i = next;
            continue;
        }
        if is_p(body.get(i), '$') {
            if let Some(TokenTree::Ident(n)) = body.get(i + 1) {
                match b.get(&n.to_string()) {
                    Some(Bind::One(v)) => { out.extend(v.clone()); i += 2; continue; }
                    Some(Bind::Many(_)) => return None,
                    None if n == "crate" => { out.extend([body[i + 1].clone()]); i += 2; continue; }
                    None => {}
                }
            }
        }
        if let TokenTree::Group(g) = &body[i] {
            let v: Vec<TokenTree> = g.stream().into_iter().collect();
            let mut ng = proc_macro2::Group::new(g.delimiter(), subst(&v, b)?);
            ng.set_span(g.span());
            out.extend([TokenTree::Group(ng)]);
        } else {
            out.extend([body[i].clone()]);
        }
        i += 1;
    }
    Some(out)
}
fn expand(name: &str, input: &TokenStream) -> Option<TokenStream> {
    if DEPTH.with(|d| d.get()) > 20 { return None; }
    let arms = MACROS.with(|m| m.borrow().get(name).cloned())?;
    let inp: Vec<TokenTree> = input.clone().into_iter().collect();
    for (p, body) in arms {
        let mut b = Binds::new();
        if mtch(&p, &inp, &mut b) == Some(inp.len()) {
            let v: Vec<TokenTree> = body.into_iter().collect();
            return subst(&v, &b);
        }
    }
    None
}

// ---------- items ----------
fn attrs(a: &[Attribute]) -> String {
    arr(a.iter().map(|x| match &x.meta {
        Meta::NameValue(nv) if nv.path.is_ident("doc") => {
            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value { obj! {"doc": js(&s.value())} } else { obj! {"s": js(&toks(&x.meta))} }
        }
        m => obj! {"s": js(&toks(m))},
    }).collect())
}
fn is_test(a: &[Attribute]) -> bool {
    a.iter().any(|x| { let s = toks(&x.meta).replace(' ', ""); s == "test" || s == "cfg(test)" })
}
fn sig(s: &Signature) -> Vec<String> {
    s.inputs.iter().map(|i| match i {
        FnArg::Receiver(r) => obj! {"self": b(true), "mut": b(r.mutability.is_some()), "ref": b(r.reference.is_some())},
        FnArg::Typed(t) => obj! {"p": pat(&t.pat), "ty": ty(&t.ty)},
    }).collect()
}
fn vis(v: &Visibility) -> String {
    js(match v { Visibility::Public(_) => "pub", Visibility::Restricted(_) => "crate", Visibility::Inherited => "" })
}
fn gen(g: &Generics) -> String {
    arr(g.params.iter().map(|p| js(&toks(p))).collect())
}
fn usetree(t: &UseTree, pre: &str, out: &mut Vec<String>) {
    let j = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { format!("{a}::{b}") };
    match t {
        UseTree::Path(p) => usetree(&p.tree, &j(pre, &p.ident.to_string()), out),
        UseTree::Name(n) => out.push(obj! {"p": js(&j(pre, &n.ident.to_string())), "as": js(&n.ident.to_string())}),
        UseTree::Rename(n) => out.push(obj! {"p": js(&j(pre, &n.ident.to_string())), "as": js(&n.rename.to_string())}),
        UseTree::Glob(_) => out.push(obj! {"p": js(&j(pre, "*")), "as": js("*")}),
        UseTree::Group(g) => for x in &g.items { usetree(x, pre, out) },
    }
}
fn fields(f: &Fields) -> String {
    arr(f.iter().enumerate().map(|(i, x)| obj! {"n": js(&x.ident.as_ref().map(|q| q.to_string()).unwrap_or(i.to_string())), "ty": ty(&x.ty), "attrs": attrs(&x.attrs)}).collect())
}
fn item(i: &Item) -> String {
    match i {
        Item::Fn(f) => obj! {"k": js("fn"), "n": js(&f.sig.ident.to_string()), "test": b(is_test(&f.attrs)), "vis": vis(&f.vis), "gen": gen(&f.sig.generics),
            "attrs": attrs(&f.attrs), "in": arr(sig(&f.sig)), "out": ret(&f.sig.output), "b": block(&f.block), "l": ln(f.sig.ident.span())},
        Item::Struct(s) => obj! {"k": js("struct"), "n": js(&s.ident.to_string()), "test": b(is_test(&s.attrs)), "attrs": attrs(&s.attrs), "f": fields(&s.fields),
            "tuple": b(matches!(s.fields, Fields::Unnamed(_))), "l": ln(s.ident.span())},
        Item::Enum(e) => obj! {"k": js("enum"), "n": js(&e.ident.to_string()), "test": b(is_test(&e.attrs)), "attrs": attrs(&e.attrs),
            "v": arr(e.variants.iter().map(|v| obj!{"n": js(&v.ident.to_string()), "f": fields(&v.fields), "named": b(matches!(v.fields, Fields::Named(_))), "attrs": attrs(&v.attrs),
                "disc": opt(v.discriminant.as_ref().map(|d| expr(&d.1)))}).collect()), "l": ln(e.ident.span())},
        Item::Impl(m) => obj! {"k": js("impl"), "ty": ty(&m.self_ty), "test": b(is_test(&m.attrs)), "trait": opt(m.trait_.as_ref().map(|t| path_j(&t.1))), "gen": gen(&m.generics),
            "items": arr(m.items.iter().map(|x| match x {
                ImplItem::Fn(f) => obj! {"k": js("fn"), "n": js(&f.sig.ident.to_string()), "test": b(is_test(&f.attrs)), "vis": vis(&f.vis), "gen": gen(&f.sig.generics),
                    "attrs": attrs(&f.attrs), "in": arr(sig(&f.sig)), "out": ret(&f.sig.output), "b": block(&f.block), "l": ln(f.sig.ident.span())},
                ImplItem::Const(c) => obj! {"k": js("const"), "n": js(&c.ident.to_string()), "test": b(is_test(&c.attrs)), "ty": ty(&c.ty), "e": expr(&c.expr), "l": ln(c.ident.span())},
                ImplItem::Type(t) => obj! {"k": js("type"), "n": js(&t.ident.to_string()), "ty": ty(&t.ty)},
                o => obj! {"k": js("other"), "s": js(&toks(o))},
            }).collect()), "l": ln(m.impl_token.span)},
        Item::Trait(t) => obj! {"k": js("trait"), "n": js(&t.ident.to_string()), "test": b(is_test(&t.attrs)),
            "items": arr(t.items.iter().map(|x| match x {
                TraitItem::Fn(f) => obj! {"k": js("fn"), "n": js(&f.sig.ident.to_string()), "test": b(false), "vis": js(""), "gen": gen(&f.sig.generics), "attrs": attrs(&f.attrs),
                    "in": arr(sig(&f.sig)), "out": ret(&f.sig.output), "b": opt(f.default.as_ref().map(block)), "l": ln(f.sig.ident.span())},
                o => obj! {"k": js("other"), "s": js(&toks(o))},
            }).collect()), "l": ln(t.ident.span())},
        Item::Const(c) => obj! {"k": js("const"), "n": js(&c.ident.to_string()), "test": b(is_test(&c.attrs)), "ty": ty(&c.ty), "e": expr(&c.expr), "l": ln(c.ident.span())},
        Item::Static(c) => obj! {"k": js("const"), "n": js(&c.ident.to_string()), "test": b(is_test(&c.attrs)), "ty": ty(&c.ty), "e": expr(&c.expr), "l": ln(c.ident.span())},
        Item::Mod(m) => obj! {"k": js("mod"), "n": js(&m.ident.to_string()), "test": b(is_test(&m.attrs)), "vis": vis(&m.vis),
            "items": match &m.content { Some((_, v)) => arr(v.iter().map(item).collect()), None => "null".into() }, "l": ln(m.ident.span())},
        Item::Use(u) => { let mut v = vec![]; usetree(&u.tree, "", &mut v); obj! {"k": js("use"), "vis": vis(&u.vis), "test": b(is_test(&u.attrs)), "u": arr(v)} }
        Item::Type(t) => obj! {"k": js("type"), "n": js(&t.ident.to_string()), "ty": ty(&t.ty)},
        Item::Macro(m) => {
            let name = m.mac.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if m.ident.is_none() {
                if let Some(x) = expand(&name, &m.mac.tokens) {
                    DEPTH.with(|d| d.set(d.get() + 1));
                    let r = syn::parse2::<File>(x).map(|f| arr(f.items.iter().map(item).collect()));
                    DEPTH.with(|d| d.set(d.get() - 1));
                    match r {
                        Ok(items) => return obj! {"k": js("expanded"), "n": js(&name), "items": items},
                        Err(e) => eprintln!("expansion of {}: {}", name, e),
                    }
                }
            }
            obj! {"k": js("macro"), "n": js(&name), "id": opt(m.ident.as_ref().map(|x| js(&x.to_string()))), "toks": tts(m.mac.tokens.clone()), "l": ln(m.mac.path.segments[0].ident.span())}
        }
        o => obj! {"k": js("other"), "s": js(&toks(o))},
    }
}

fn main() {
    let mut out = vec![];
    for p in std::env::args().skip(1) {
        if let Ok(s) = std::fs::read_to_string(&p) {
            if s.contains("macro_rules!") {
                if let Ok(ts) = s.parse::<TokenStream>() { collect_macros(ts); }
            }
        }
    }
    for p in std::env::args().skip(1) {
        let r = std::fs::read_to_string(&p).map_err(|e| e.to_string())
            .and_then(|s| syn::parse_file(&s).map_err(|e| format!("{}:{}: {}", p, e.span().start().line, e)));
        let v = match r {
            Ok(f) => obj! {"error": "null".to_string(), "items": arr(f.items.iter().map(item).collect())},
            Err(e) => obj! {"error": js(&e), "items": "[]".to_string()},
        };
        out.push(format!("{}:{}", js(&p), v));
    }
    println!("{{{}}}", out.join(",\n"));
}
