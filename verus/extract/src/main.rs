//! extract TEMPLATE REPO OUT
//!
//! Copies TEMPLATE to OUT, replacing every `//@fn FILE :: PATH` ... `//@end` block by the function PATH
//! taken from REPO/FILE *as it is now*, mechanically rewritten into the subset Verus accepts and with the
//! contract, loop invariants and proof hints of the block attached.  What is rewritten and what is dropped
//! is printed on stdout as `DROP ...` lines; anything not understood ends the extraction with an error.
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type R<T> = std::result::Result<T, String>;
macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

#[derive(Default, Clone)]
struct Spec { file: String, path: String, mac: Option<(String, Vec<String>)>, contract: String, hooks: BTreeMap<String, String>, subs: Vec<(String, String)>, rename: Option<String>, ret: String, byref: bool, cloned: bool, regkeep: bool, registers: bool, lift: Option<String>, closures: Vec<String>, rangety: Option<String>, sig: Option<String>, slices: BTreeMap<String, String>, presubs: Vec<(String, String)>, opt: Vec<(String, String)> }
#[derive(Default, Clone)]
struct Global { iters: BTreeMap<String, (String, String)>, dropgen: BTreeSet<String>, allow: Vec<(String, String)>, scratch: BTreeMap<String, String>, noops: BTreeSet<String> }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match go(&a[1], &a[2], &a[4..]) {
        Ok(s) => std::fs::write(&a[3], s).unwrap(),
        Err(e) => { eprintln!("EXTRACT-ERROR {e}"); std::process::exit(2) }
    }
}

fn read(p: &str) -> R<String> { std::fs::read_to_string(p).map_err(|e| format!("{p}: {e}")) }

fn expand_includes(path: &str) -> R<String> {
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut out = String::new();
    for l in read(path)?.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") { out += &expand_includes(dir.join(f.trim()).to_str().unwrap())?; } else { out += l; out.push('\n'); }
    }
    Ok(out)
}

fn go(tpl: &str, repo: &str, params: &[String]) -> R<String> {
    let mut text = expand_includes(tpl)?;
    for p in params { let (k, v) = p.split_once('=').ok_or("bad parameter")?; text = text.replace("WORD_SIZE", "W\u{1}SIZE").replace(k, v).replace("W\u{1}SIZE", "WORD_SIZE"); }
    let mut g = Global::default();
    let mut out = String::new();
    let mut lines = text.lines().peekable();
    let mut defs: BTreeMap<String, String> = BTreeMap::new();
    while let Some(l) = lines.next() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@iter ") { let w: Vec<&str> = r.split_whitespace().collect(); g.iters.insert(w[0].into(), (w[1].into(), w[2].into())); continue }
        if let Some(r) = t.strip_prefix("//@generic ") { for w in r.split_whitespace() { g.dropgen.insert(w.into()); } continue }
        if let Some(r) = t.strip_prefix("//@noop ") { for w in r.split_whitespace() { g.noops.insert(w.into()); } continue }
        if let Some(r) = t.strip_prefix("//@scratch ") { let w: Vec<&str> = r.split_whitespace().collect(); g.scratch.insert(w[0].into(), w[1].into()); continue }
        if let Some(r) = t.strip_prefix("//@def ") { let (k, v) = r.split_once(' ').unwrap(); defs.insert(k.into(), v.into()); continue }
        if let Some(r) = t.strip_prefix("//@all ") { let (x, y) = r.split_once("=>").ok_or("bad @all")?; g.allow.push((x.trim().trim_matches('"').into(), y.trim().trim_matches('"').into())); continue }
        if let Some(r) = t.strip_prefix("//@item ") { let (f, p) = r.split_once("::").ok_or("bad @item")?; out += &item(repo, f.trim(), p.trim())?; continue }
        if let Some(r) = t.strip_prefix("//@fn ") {
            let mut s = Spec { ret: "ret".into(), ..Default::default() };
            let (f, p) = r.split_once("::").ok_or("bad @fn")?;
            s.file = f.trim().into(); s.path = p.trim().into();
            let mut cur = "contract".to_string();
            loop {
                let Some(l) = lines.next() else { bail!("unterminated block {r}") };
                let t = l.trim();
                if t == "//@end" { break }
                if let Some(x) = t.strip_prefix("//@macro ") { let (n, a) = x.trim().trim_end_matches(')').split_once('(').ok_or("bad @macro")?; s.mac = Some((n.into(), a.split(',').map(|z| z.trim().to_string()).collect())); }
                else if let Some(x) = t.strip_prefix("//@rename ") { s.rename = Some(x.trim().into()); }
                else if let Some(x) = t.strip_prefix("//@ret ") { s.ret = x.trim().into(); }
                else if let Some(x) = t.strip_prefix("//@sig ") { s.sig = Some(x.trim().into()); }
                else if t == "//@byref" { s.byref = true; } else if t == "//@cloned" { s.cloned = true; }
                else if t == "//@registers" { s.registers = true; } else if t == "//@registers keep" { s.registers = true; s.regkeep = true; }
                else if let Some(x) = t.strip_prefix("//@lift ") { s.lift = Some(x.trim().into()); }
                else if let Some(x) = t.strip_prefix("//@closures ") { s.closures = x.split_whitespace().map(|x| x.into()).collect(); }
                else if let Some(r) = t.strip_prefix("//@rangety ") { s.rangety = Some(r.trim().into()); }
                else if let Some(x) = t.strip_prefix("//@slice ") { let (k, v) = x.split_once(' ').unwrap(); s.slices.insert(k.into(), v.trim().into()); }
                else if let Some(x) = t.strip_prefix("//@sub ") { let (x, y) = x.split_once("=>").ok_or("bad @sub")?; let y = y.trim(); if let Some(y) = y.strip_suffix(" optional") { s.opt.push((x.trim().trim_matches('"').into(), y.trim().trim_matches('"').into())); } else { s.subs.push((x.trim().trim_matches('"').into(), y.trim_matches('"').into())); } }
                else if let Some(x) = t.strip_prefix("//@presub ") { let (x, y) = x.split_once("=>").ok_or("bad @presub")?; s.presubs.push((x.trim().trim_matches('"').into(), y.trim().trim_matches('"').into())); }
                else if let Some(x) = t.strip_prefix("//@at ") { cur = x.trim().into(); }
                else if let Some(x) = t.strip_prefix("//@") { bail!("unknown directive {x}") }
                else { let e = if cur == "contract" { &mut s.contract } else { s.hooks.entry(cur.clone()).or_default() }; e.push_str(l); e.push('\n'); }
            }
            for v in s.hooks.values_mut().chain(std::iter::once(&mut s.contract)) { for (k, d) in &defs { *v = v.replace(k, d); } }
            out += &extract(&s, &g, repo).map_err(|e| format!("{} :: {}: {e}", s.file, s.path))?;
            continue
        }
        if t.starts_with("//@") { bail!("unknown directive {t}") }
        out += l; out.push('\n');
    }
    Ok(out)
}

/// `//@item FILE :: NAME`: a constant, structure or enumeration of the source, attributes dropped and everything made public.
fn item(repo: &str, file: &str, name: &str) -> R<String> {
    let f = parse_file(&read(&format!("{repo}/{file}"))?).map_err(|e| e.to_string())?;
    fn find(items: &[Item], name: &str, out: &mut Vec<Item>) { for i in items { match i {
        Item::Const(c) if c.ident == name => out.push(i.clone()), Item::Struct(c) if c.ident == name => out.push(i.clone()), Item::Enum(c) if c.ident == name => out.push(i.clone()),
        Item::Mod(m) => if let (Some((_, i)), false) = (&m.content, m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"))) { find(i, name, out) }, _ => {} } } }
    let mut v = vec![]; find(&f.items, name, &mut v);
    if v.len() != 1 { bail!("{file}: {} items {name}", v.len()) }
    let mut i = v.remove(0); let public: Visibility = parse_quote!(pub);
    match &mut i {
        Item::Const(c) => { let ty = last_seg(&c.ty); let bits = match ty.as_str() { "u8" => 8, "u16" => 16, "u32" => 32, "u64" | "usize" => 64, _ => 0 };
            // an unsigned constant is replaced by its value, computed here from its expression
            if bits > 0 { let x = const_eval(&c.expr, bits, &f.items)?; let l = LitInt::new(&x.to_string(), proc_macro2::Span::call_site()); c.expr = parse_quote!(#l) }
            c.attrs.clear(); c.vis = public }
        Item::Struct(c) => { c.attrs.clear(); c.vis = public.clone(); for x in c.fields.iter_mut() { x.attrs.clear(); x.vis = public.clone() } }
        Item::Enum(c) => { c.attrs.clear(); c.vis = public; for x in c.variants.iter_mut() { x.attrs.clear(); for y in x.fields.iter_mut() { y.attrs.clear() } } }
        _ => {}
    }
    Ok(prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![i] }))
}

fn const_eval(e: &Expr, bits: u32, items: &[Item]) -> R<u128> {
    let m = (1u128 << bits) - 1;
    let ck = |x: Option<u128>| x.filter(|x| *x <= m).ok_or("constant overflows".to_string());
    Ok(match e {
        Expr::Paren(p) => const_eval(&p.expr, bits, items)?,
        Expr::Cast(c) => const_eval(&c.expr, bits, items)?,
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().map_err(|e| e.to_string())?,
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => !const_eval(&u.expr, bits, items)? & m,
        Expr::Path(p) => { let n = p.path.segments.last().unwrap().ident.to_string(); for i in items { if let Item::Const(c) = i { if c.ident == n { return const_eval(&c.expr, bits, items) } } } bail!("constant {n}") }
        Expr::Binary(b) => { let (x, y) = (const_eval(&b.left, bits, items)?, const_eval(&b.right, bits, items)?); match b.op {
            BinOp::Add(_) => ck(x.checked_add(y))?, BinOp::Sub(_) => ck(x.checked_sub(y))?, BinOp::Mul(_) => ck(x.checked_mul(y))?, BinOp::Div(_) => ck(x.checked_div(y))?, BinOp::Rem(_) => ck(x.checked_rem(y))?,
            BinOp::Shl(_) => (if y < bits as u128 { x << y } else { bail!("constant shift") }) & m, BinOp::Shr(_) => if y < bits as u128 { x >> y } else { bail!("constant shift") },
            BinOp::BitAnd(_) => x & y, BinOp::BitOr(_) => x | y, BinOp::BitXor(_) => x ^ y, _ => bail!("constant operator") } }
        _ => bail!("constant expression {}", e.to_token_stream()),
    })
}

fn last_seg(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), Type::Reference(r) => last_seg(&r.elem), Type::Slice(s) => format!("[{}]", last_seg(&s.elem)), Type::Group(g) => last_seg(&g.elem), Type::Paren(g) => last_seg(&g.elem), _ => String::new() }
}

enum Found { Free(ItemFn), Method(ImplItemFn) }
fn search(items: &[Item], path: &str, strict: bool, out: &mut Vec<Found>) {
    // PATH: `f`, `Type::f`, `<Trait for Type>::f`
    for it in items {
        match it {
            Item::Fn(f) if f.sig.ident == path => out.push(Found::Free(f.clone())),
            Item::Mod(m) => { let test = m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")); if !test { if let Some((_, i)) = &m.content { search(i, path, strict, out) } } }
            Item::Impl(im) => {
                let ty = last_seg(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                let trfull = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""));
                let tyfull = im.self_ty.to_token_stream().to_string().replace(' ', "");
                for f in &im.items { if let ImplItem::Fn(f) = f {
                    let n = f.sig.ident.to_string();
                    let trpath = im.trait_.as_ref().map(|t| t.1.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")).unwrap_or_default();
                    let key = if strict && tr.is_some() { vec![format!("<{trpath} for {ty}>::{n}"), format!("<{trpath} for {tyfull}>::{n}"), format!("<{} for {tyfull}>::{n}", im.trait_.as_ref().unwrap().1.to_token_stream().to_string().replace(' ', ""))] } else { match &tr { None => vec![format!("{ty}::{n}"), format!("{tyfull}::{n}")], Some(t) => vec![format!("<{t} for {ty}>::{n}"), format!("<{t} for {tyfull}>::{n}"), format!("<{} for {tyfull}>::{n}", trfull.clone().unwrap())] } };
                    if key.iter().any(|k| k == path) { out.push(Found::Method(f.clone())) }
                } }
            }
            Item::Trait(tr) => for f in &tr.items { if let TraitItem::Fn(f) = f { if format!("trait {}::{}", tr.ident, f.sig.ident) == path { if let Some(b) = &f.default { out.push(Found::Free(ItemFn { attrs: vec![], vis: Visibility::Inherited, sig: f.sig.clone(), block: Box::new(b.clone()) })) } } } },
            _ => {}
        }
    }
}

fn find_macro(items: &[Item], name: &str) -> Option<TokenStream> {
    for it in items { match it {
        Item::Macro(m) if m.ident.as_ref().is_some_and(|i| i == name) => return Some(m.mac.tokens.clone()),
        Item::Mod(m) => if let Some((_, i)) = &m.content { if let Some(x) = find_macro(i, name) { return Some(x) } },
        _ => {}
    } }
    None
}

/// First arm of a macro_rules definition with its fragment variables replaced by the given texts.
fn expand_macro(ts: TokenStream, args: &[String]) -> R<String> {
    let mut it = ts.into_iter();
    let Some(TokenTree::Group(pat)) = it.next() else { bail!("macro pattern") };
    it.next(); it.next();
    let Some(TokenTree::Group(body)) = it.next() else { bail!("macro body") };
    let mut vars = vec![]; let mut p = pat.stream().into_iter().peekable();
    while let Some(t) = p.next() { if let TokenTree::Punct(x) = &t { if x.as_char() == '$' { if let Some(TokenTree::Ident(i)) = p.next() { vars.push(i.to_string()) } } } }
    if vars.len() < args.len() { bail!("macro has {} variables, {} given", vars.len(), args.len()) }
    let map: BTreeMap<String, TokenStream> = vars.into_iter().zip(args).map(|(v, a)| (v, a.parse().unwrap())).collect();
    fn sub(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
        let mut out = TokenStream::new(); let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                TokenTree::Punct(ref x) if x.as_char() == '$' => { if let Some(TokenTree::Ident(i)) = it.peek() { if let Some(r) = map.get(&i.to_string()) { out.extend(r.clone()); it.next(); continue } } out.extend(std::iter::once(t)) }
                TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), sub(g.stream(), map)); n.set_span(g.span()); out.extend(std::iter::once(TokenTree::Group(n))) }
                t => out.extend(std::iter::once(t)),
            }
        }
        out
    }
    Ok(paste(sub(body.stream(), &map)).to_string())
}
/// `paste::paste! { .. }` is unwrapped, `[<a b:lower>]` concatenated, repetitions over absent variables dropped.
fn paste(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![]; let mut i = 0;
    let is = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] { if id == "paste" {
            let mut j = i + 1; while j < v.len() && !matches!(v[j], TokenTree::Group(_)) { j += 1 }
            if is(v.get(j - 1), '!') { if let TokenTree::Group(g) = &v[j] { out.extend(paste(g.stream())); i = j + 1; continue } }
        } }
        if is(v.get(i), '$') { if let Some(TokenTree::Group(_)) = v.get(i + 1) { i += 2; let op = |t: Option<&TokenTree>| is(t, '*') || is(t, '+') || is(t, '?'); if op(v.get(i)) { i += 1 } else if op(v.get(i + 1)) { i += 2 } continue } }
        if let TokenTree::Group(g) = &v[i] {
            let w: Vec<TokenTree> = g.stream().into_iter().collect();
            if g.delimiter() == proc_macro2::Delimiter::Bracket && is(w.first(), '<') && is(w.last(), '>') {
                let mut name = String::new(); let mut k = 1;
                while k + 1 < w.len() { match &w[k] {
                    TokenTree::Punct(p) if p.as_char() == ':' => { if let TokenTree::Ident(m) = &w[k + 1] { if m == "lower" || m == "snake" {
                        // applies to the identifier just pushed
                        let cut = name.rfind(' ').map(|x| x + 1).unwrap_or(0); let tail = name[cut..].to_lowercase(); name.truncate(cut); name += &tail; } } k += 2; continue }
                    t => { name.push(' '); name += &t.to_string(); }
                } k += 1 }
                let name: String = name.split_whitespace().collect();
                out.push(TokenTree::Ident(proc_macro2::Ident::new(&name, proc_macro2::Span::call_site()))); i += 1; continue
            }
            let n = proc_macro2::Group::new(g.delimiter(), paste(g.stream())); out.push(TokenTree::Group(n)); i += 1; continue
        }
        out.push(v[i].clone()); i += 1;
    }
    out.into_iter().collect()
}

/// `let f = |a, b| e;` with plain parameters and calls `f(x, y)`: every call becomes `{ let (a, b) = (x, y); e }`. Done only when no name
/// the closure captures is bound again anywhere in the function, so that the names in `e` mean the same at every call.
fn inline_closures(sig: &Signature, b: &mut Block, drops: &mut BTreeSet<String>) {
    use syn::visit::Visit;
    #[derive(Default)] struct Names { bound: BTreeMap<String, usize>, paths: BTreeSet<String>, uses: BTreeMap<String, usize>, calls: BTreeMap<String, usize> }
    impl<'a> Visit<'a> for Names {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { *self.bound.entry(p.ident.to_string()).or_default() += 1; syn::visit::visit_pat_ident(self, p) }
        fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.paths.insert(i.to_string()); *self.uses.entry(i.to_string()).or_default() += 1; } }
        fn visit_expr_call(&mut self, c: &'a ExprCall) { if let Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() { *self.calls.entry(i.to_string()).or_default() += 1; } } syn::visit::visit_expr_call(self, c) }
    }
    let mut all = Names::default(); all.visit_signature(sig); all.visit_block(b);
    struct In<'a> { all: &'a Names, map: BTreeMap<String, (Vec<Pat>, Expr)> }
    impl<'a> VisitMut for In<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let old = std::mem::take(&mut b.stmts);
            for s in old {
                if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &s { if let Expr::Closure(c) = &**expr {
                    let plain = c.inputs.iter().all(|x| matches!(x, Pat::Ident(_)) || matches!(x, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(_))));
                    let mut n = Names::default(); n.visit_expr(&c.body); let ps: BTreeSet<String> = c.inputs.iter().map(|x| match x { Pat::Ident(i) => i.ident.to_string(), Pat::Type(t) => if let Pat::Ident(i) = &*t.pat { i.ident.to_string() } else { String::new() }, _ => String::new() }).collect();
                    let name = p.ident.to_string();
                    if plain && p.mutability.is_none() && n.bound.is_empty() && matches!(&*c.body, Expr::Binary(_) | Expr::Paren(_) | Expr::MethodCall(_) | Expr::Call(_)) && self.all.bound.get(&name) == Some(&1) && self.all.uses.get(&name) == self.all.calls.get(&name) && n.paths.iter().all(|x| ps.contains(x) || self.all.bound.get(x).copied().unwrap_or(0) <= 1) {
                        let pats = c.inputs.iter().map(|x| match x { Pat::Type(t) => (*t.pat).clone(), x => x.clone() }).collect();
                        self.map.insert(name, (pats, (*c.body).clone())); continue
                    }
                } }
                b.stmts.push(s);
            }
            syn::visit_mut::visit_block_mut(self, b)
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            syn::visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e { if let Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() { if let Some((ps, body)) = self.map.get(&i.to_string()) { if ps.len() == c.args.len() {
                let args: Vec<&Expr> = c.args.iter().collect(); *e = parse_quote!({ let (#(#ps,)*) = (#(#args,)*); #body });
            } } } } }
        }
    }
    let mut x = In { all: &all, map: BTreeMap::new() }; x.visit_block_mut(b);
    for k in x.map.keys() { drops.insert(format!("local closure {k} inlined at its calls")); }
}

struct Ctx<'a> { g: &'a Global, s: &'a Spec, loops: usize, used: BTreeSet<String>, err: Option<String>, pending: Vec<Stmt>, drops: BTreeSet<String> }

#[derive(Clone)]
enum Plan {
    Slice { tmp: Ident, mutable: bool }, Owned { tmp: Ident },
    Entity { tmp: Ident, acc: Ident, len: Ident, args: Vec<Expr> },
    Range { lo: Expr, hi: Expr },
    Once(Ident, bool), Repeat(Ident), Cloned(Box<Plan>),
    Zip(Box<Plan>, Box<Plan>), Enumerate(Box<Plan>), Rev(Box<Plan>), Take(Box<Plan>, Ident), Skip(Box<Plan>, Ident), Copied(Box<Plan>), Chain(Box<Plan>, Box<Plan>), MapRef(Box<Plan>, Pat, Box<Expr>),
}

impl<'a> Ctx<'a> {
    fn fail(&mut self, m: String) { if self.err.is_none() { self.err = Some(m) } }
    fn hook(&mut self, k: &str) -> Vec<Stmt> {
        if self.s.hooks.contains_key(k) { self.used.insert(k.into()); let id = k.replace(' ', "_"); let id = format_ident!("h_{}", id); vec![parse_quote!(__vp!(#id);)] } else { vec![] }
    }
    fn inv(&mut self, l: usize) -> Vec<Stmt> { let k = format!("loop {l}"); let id = format_ident!("h_{}", k.replace(' ', "_")); self.used.insert(k.clone()); if !self.s.hooks.contains_key(&k) { self.fail(format!("loop {l} has no invariant")) } vec![parse_quote!(__vinv!(#id);)] }

    fn plan(&mut self, e: &Expr, l: usize, pre: &mut Vec<Stmt>, cnt: &mut usize) -> R<Plan> {
        let fresh = |cnt: &mut usize, p: &str| { let i = format_ident!("__{}{}_{}", p, l, *cnt); *cnt += 1; i };
        Ok(match e {
            Expr::Paren(p) => self.plan(&p.expr, l, pre, cnt)?,
            Expr::Range(r) => { let (Some(lo), Some(hi)) = (&r.start, &r.end) else { bail!("open range") };
                let (lv, hv) = (fresh(cnt, "lo"), fresh(cnt, "hi"));
                let hi: Expr = if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!((#hi) + 1) } else { (**hi).clone() };
                pre.push(parse_quote!(let #hv = #hi;)); pre.push(parse_quote!(let #lv = #lo;));
                // keep literal types tied to the other bound
                Plan::Range { lo: parse_quote!(#lv), hi: parse_quote!(#hv) } }
            Expr::Reference(r) => { let t = fresh(cnt, "s"); let x = &r.expr; let m = r.mutability.is_some();
                if m { pre.push(parse_quote!(let #t = &mut #x;)) } else { pre.push(parse_quote!(let #t = &#x;)) } Plan::Slice { tmp: t, mutable: m } }
            Expr::MethodCall(m) => {
                let name = m.method.to_string(); let rc = &*m.receiver; let args: Vec<Expr> = m.args.iter().cloned().collect();
                match (name.as_str(), args.len()) {
                    ("iter", 0) | ("par_iter", 0) => { if let Some(p) = self.entity_try(rc, l, pre, cnt)? { return Ok(p) } let t = fresh(cnt, "s"); match rc { Expr::Path(_) => { if self.owned(rc) { pre.push(parse_quote!(let #t = &#rc;)) } else { pre.push(parse_quote!(let #t = &*#rc;)) } } Expr::Field(_) | Expr::Index(_) => pre.push(parse_quote!(let #t = &#rc;)), _ => pre.push(parse_quote!(let #t = #rc;)) } Plan::Slice { tmp: t, mutable: false } }
                    ("iter_mut", 0) => { let t = fresh(cnt, "s"); match rc { Expr::Path(_) => { if self.owned(rc) { pre.push(parse_quote!(let #t = &mut #rc;)) } else { pre.push(parse_quote!(let #t = &mut *#rc;)) } } Expr::Field(_) | Expr::Index(_) => pre.push(parse_quote!(let #t = &mut #rc;)), _ => pre.push(parse_quote!(let #t = #rc;)) } Plan::Slice { tmp: t, mutable: true } }
                    ("coeffs" | "as_slice", 0) => { let t = fresh(cnt, "s"); pre.push(parse_quote!(let #t = #e;)); Plan::Slice { tmp: t, mutable: false } }
                    ("coeffs_mut" | "as_mut_slice", 0) => { let t = fresh(cnt, "s"); pre.push(parse_quote!(let #t = #e;)); Plan::Slice { tmp: t, mutable: true } }
                    // an owned vector made by a call: its elements are taken one by one (here: cloned out of the vector, which is not used again)
                    ("into_iter", 0) if matches!(rc, Expr::MethodCall(m) if m.args.is_empty() && !self.g.iters.contains_key(&m.method.to_string()) && !matches!(m.method.to_string().as_str(), "iter" | "iter_mut" | "coeffs" | "coeffs_mut" | "as_slice" | "as_mut_slice" | "into_iter" | "enumerate" | "rev" | "copied" | "cloned" | "by_ref")) => { let t = fresh(cnt, "s"); pre.push(parse_quote!(let #t = #rc;)); self.drops.insert("into_iter of an owned vector: elements cloned out of it in order".into()); Plan::Owned { tmp: t } }
                    ("into_iter", 0) => self.plan(rc, l, pre, cnt)?,
                    ("zip", 1) => { let a = self.plan(rc, l, pre, cnt)?; let b = self.plan(&args[0], l, pre, cnt)?; Plan::Zip(Box::new(a), Box::new(b)) }
                    ("chain", 1) => { let a = self.plan(rc, l, pre, cnt)?; let b = self.plan(&args[0], l, pre, cnt)?; Plan::Chain(Box::new(a), Box::new(b)) }
                    ("enumerate", 0) => Plan::Enumerate(Box::new(self.plan(rc, l, pre, cnt)?)),
                    ("rev", 0) => Plan::Rev(Box::new(self.plan(rc, l, pre, cnt)?)),
                    ("cloned", 0) if self.s.cloned => Plan::Cloned(Box::new(self.plan(rc, l, pre, cnt)?)),
                    ("copied", 0) | ("cloned", 0) => Plan::Copied(Box::new(self.plan(rc, l, pre, cnt)?)),
                    ("by_ref", 0) => self.plan(rc, l, pre, cnt)?,
                    ("take", 1) | ("skip", 1) => { let p = self.plan(rc, l, pre, cnt)?; let t = fresh(cnt, "k"); let x = &args[0]; pre.push(parse_quote!(let #t = #x;)); if name == "take" { Plan::Take(Box::new(p), t) } else { Plan::Skip(Box::new(p), t) } }
                    // a flat_map to an array inside a longer chain: its elements are gathered in a vector first (the closure only reads)
                    ("flat_map", 1) if matches!(&args[0], Expr::Closure(c) if c.inputs.len() == 1 && matches!(&*c.body, Expr::Array(_))) => { let Expr::Closure(c) = &args[0] else { unreachable!() }; let Expr::Array(arr) = &*c.body else { unreachable!() };
                        let k = self.loops; let v = format_ident!("__v{}", k); let els: Vec<Expr> = arr.elems.iter().cloned().collect(); let body: Block = parse_quote!({ #(#v.push(#els);)* });
                        let b = self.lower_for(&c.inputs[0].clone(), rc, &body)?; self.pending.push(parse_quote!(let mut #v = Vec::new();)); self.pending.extend(b);
                        self.drops.insert("flat_map to an array inside a longer chain gathered in a Vec first".into());
                        let t = fresh(cnt, "s"); pre.push(parse_quote!(let #t = #v;)); Plan::Owned { tmp: t } }
                    ("map", 1) => { let Expr::Closure(c) = &args[0] else { bail!("map of a non-closure") }; let p = self.plan(rc, l, pre, cnt)?; Plan::MapRef(Box::new(p), c.inputs[0].clone(), c.body.clone()) }
                    _ => match self.entity_try(e, l, pre, cnt)? { Some(p) => p, None => bail!("iterator method {name} not understood") },
                }
            }
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "").ends_with("iter::repeat") => { let t = fresh(cnt, "r"); let x = &c.args[0]; pre.push(parse_quote!(let #t = #x;)); Plan::Repeat(t) }
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "").starts_with("std::array::from_fn::<_,") => { let f = c.func.to_token_stream().to_string().replace(' ', ""); let n: Expr = parse_str(f.split(',').nth(1).unwrap()).map_err(|e| e.to_string())?; let Expr::Closure(k) = &c.args[0] else { bail!("from_fn of a non-closure") };
                let (lv, hv) = (fresh(cnt, "lo"), fresh(cnt, "hi")); pre.push(parse_quote!(let #hv: usize = #n;)); pre.push(parse_quote!(let #lv: usize = 0;)); Plan::MapRef(Box::new(Plan::Range { lo: parse_quote!(#lv), hi: parse_quote!(#hv) }), k.inputs[0].clone(), k.body.clone()) }
            Expr::Call(c) => { let f = c.func.to_token_stream().to_string().replace(' ', ""); if f.ends_with("once") && c.args.len() == 1 { let t = fresh(cnt, "o"); let x = &c.args[0]; pre.push(parse_quote!(let #t = #x;)); Plan::Once(t, self.s.slices.get(&x.to_token_stream().to_string()).is_some_and(|k| k == "mut")) } else { bail!("iterator call {f} not understood") } }
            Expr::Path(p) => { let n = p.path.to_token_stream().to_string(); let kind = self.s.slices.get(&n).cloned().unwrap_or_else(|| "ref".into());
                let t = fresh(cnt, "s");
                match kind.as_str() {
                    "mut" => { pre.push(parse_quote!(let #t = #p;)); Plan::Slice { tmp: t, mutable: true } }
                    "ref" => { pre.push(parse_quote!(let #t = #p;)); Plan::Slice { tmp: t, mutable: false } }
                    "taken" => { pre.push(parse_quote!(let #t = #p;)); self.drops.insert("the elements of an owned vector are cloned out one by one (the vector is not used again)".into()); Plan::Owned { tmp: t } }
                    k => { let w: Vec<&str> = k.split_whitespace().collect(); Plan::Entity { tmp: p.path.get_ident().unwrap().clone(), acc: format_ident!("{}", w[0]), len: format_ident!("{}", w[1]), args: vec![] } }
                } }
            _ => bail!("iterator expression {} not understood", e.to_token_stream()),
        })
    }
    /// `//@slice x own`: x is an owned container, not a reference.
    fn owned(&self, e: &Expr) -> bool { let n = e.to_token_stream().to_string(); self.s.slices.get(&n).is_some_and(|k| k == "own") }
    fn entity_try(&mut self, e: &Expr, l: usize, pre: &mut Vec<Stmt>, cnt: &mut usize) -> R<Option<Plan>> {
        if let Expr::MethodCall(m) = e { let name = m.method.to_string(); if let Some((acc, len)) = self.g.iters.get(&name).cloned() {
            let t = format_ident!("__e{}_{}", l, *cnt); *cnt += 1; let rc = &m.receiver;
            let mutable = name.ends_with("_mut");
            if matches!(**rc, Expr::Field(_)) && !mutable { pre.push(parse_quote!(let #t = &#rc;)) } else if matches!(**rc, Expr::Path(_)) { if mutable { pre.push(parse_quote!(let #t = &mut *#rc;)) } else { pre.push(parse_quote!(let #t = &*#rc;)) } } else { pre.push(parse_quote!(let #t = #rc;)) }
            return Ok(Some(Plan::Entity { tmp: t, acc: format_ident!("{}", acc), len: format_ident!("{}", len), args: m.args.iter().cloned().collect() }))
        } }
        Ok(None)
    }
    fn len(&self, p: &Plan) -> R<Expr> {
        Ok(match p {
            Plan::Slice { tmp, .. } | Plan::Owned { tmp } => parse_quote!(#tmp.len()),
            Plan::Entity { tmp, len, args, .. } => parse_quote!(#tmp.#len(#(#args),*)),
            Plan::Range { lo, hi } => if self.s.rangety.is_some() { parse_quote!(range_len((#lo) as usize, (#hi) as usize)) } else { parse_quote!(range_len(#lo, #hi)) },
            Plan::Once(..) => parse_quote!(1usize), Plan::Repeat(_) => parse_quote!(usize::MAX),
            Plan::Zip(a, b) => { let (x, y) = (self.len(a)?, self.len(b)?); parse_quote!(umin(#x, #y)) }
            Plan::Take(a, k) => { let x = self.len(a)?; parse_quote!(umin(#x, #k)) }
            Plan::Skip(a, k) => { let x = self.len(a)?; parse_quote!(usub(#x, #k)) }
            Plan::Chain(_, b) if matches!(**b, Plan::Repeat(_)) => parse_quote!(usize::MAX),
            Plan::Chain(a, b) => { let (x, y) = (self.len(a)?, self.len(b)?); parse_quote!(#x + #y) }
            Plan::Enumerate(a) | Plan::Rev(a) | Plan::Copied(a) | Plan::Cloned(a) | Plan::MapRef(a, ..) => self.len(a)?,
        })
    }
    fn bind(&self, p: &Plan, pat: &Pat, ix: &Expr, out: &mut Vec<Stmt>) -> R<()> {
        match (p, pat) {
            (_, Pat::Paren(q)) => self.bind(p, &q.pat, ix, out)?,
            (_, Pat::Type(q)) => self.bind(p, &q.pat, ix, out)?,
            (Plan::Zip(a, b), Pat::Tuple(t)) if t.elems.len() == 2 => { self.bind(a, &t.elems[0], ix, out)?; self.bind(b, &t.elems[1], ix, out)?; }
            (Plan::Enumerate(a), Pat::Tuple(t)) if t.elems.len() == 2 => { let x = &t.elems[0]; out.push(parse_quote!(let #x = #ix;)); self.bind(a, &t.elems[1], ix, out)?; }
            (Plan::Rev(a), _) => { let n = self.len(a)?; let e: Expr = parse_quote!(#n - 1 - #ix); self.bind(a, pat, &e, out)?; }
            (Plan::Take(a, _), _) => self.bind(a, pat, ix, out)?,
            (Plan::Skip(a, k), _) => { let e: Expr = parse_quote!(#k + #ix); self.bind(a, pat, &e, out)?; }
            (Plan::Zip(..), Pat::Wild(_)) | (Plan::Enumerate(..), Pat::Wild(_)) => {}
            (Plan::MapRef(a, ip, body), _) => { self.bind(a, ip, ix, out)?; out.push(parse_quote!(let #pat = #body;)); }
            (Plan::Chain(a, b), _) => { let n = self.len(a)?; let x = self.elem(a, ix)?; let e: Expr = parse_quote!(#ix - #n); let y = self.elem(b, &e)?; out.push(parse_quote!(let #pat = if #ix < #n { #x } else { #y };)); }
            (_, Pat::Reference(r)) => { let x = self.elem(p, ix)?; let q = &r.pat; let x: Expr = match &x { Expr::Reference(y) => (*y.expr).clone(), _ => parse_quote!(*(#x)) }; out.push(parse_quote!(let #q = #x;)); }
            _ => { let x = self.elem(p, ix)?; out.push(parse_quote!(let #pat = #x;)); }
        }
        Ok(())
    }
    fn elem(&self, p: &Plan, ix: &Expr) -> R<Expr> {
        Ok(match p {
            Plan::Owned { tmp } => parse_quote!(#tmp[#ix].clone()),
            Plan::Slice { tmp, mutable: true } => parse_quote!(&mut #tmp[#ix]),
            Plan::Slice { tmp, mutable: false } => parse_quote!(&#tmp[#ix]),
            Plan::Entity { tmp, acc, args, .. } => parse_quote!(#tmp.#acc(#(#args,)* #ix)),
            Plan::Range { lo, .. } => if let Some(t) = &self.s.rangety { let t = format_ident!("{}", t); parse_quote!(#lo + (#ix) as #t) } else { parse_quote!(#lo + #ix) },
            Plan::Repeat(t) => parse_quote!(#t), Plan::Cloned(a) => { let x = self.elem(a, ix)?; parse_quote!((#x).clone()) }
            Plan::Once(t, true) => parse_quote!(&mut *#t), Plan::Once(t, false) => parse_quote!(#t),
            Plan::Copied(a) => { let x = self.elem(a, ix)?; match &x { Expr::Reference(y) => (*y.expr).clone(), _ => parse_quote!(*(#x)) } }
            Plan::Rev(a) => { let n = self.len(a)?; let e: Expr = parse_quote!(#n - 1 - #ix); self.elem(a, &e)? }
            Plan::Take(a, _) => self.elem(a, ix)?,
            Plan::Skip(a, k) => { let e: Expr = parse_quote!(#k + #ix); self.elem(a, &e)? }
            Plan::Zip(a, b) => { let (x, y) = (self.elem(a, ix)?, self.elem(b, ix)?); parse_quote!((#x, #y)) }
            Plan::Enumerate(a) => { let x = self.elem(a, ix)?; parse_quote!((#ix, #x)) }
            Plan::Chain(a, b) => { let n = self.len(a)?; let x = self.elem(a, ix)?; let e: Expr = parse_quote!(#ix - #n); let y = self.elem(b, &e)?; parse_quote!(if #ix < #n { #x } else { #y }) }
            Plan::MapRef(..) => bail!("map in value position"),
        })
    }
    fn lower_for(&mut self, pat: &Pat, e: &Expr, body: &Block) -> R<Vec<Stmt>> {
        let l = self.loops; self.loops += 1;
        let mut pre = vec![]; let mut cnt = 0;
        let mut out = self.hook(&format!("before {l}"));
        let plan = self.plan(e, l, &mut pre, &mut cnt)?;
        for s in pre.iter_mut() { self.visit_stmt_mut(s) }
        out.extend(std::mem::take(&mut self.pending)); out.extend(pre);
        let i = format_ident!("__i{}", l); let n = format_ident!("__n{}", l);
        let inner_hooks = self.hook(&format!("start {l}")); let init = self.hook(&format!("init {l}")); let inv = self.inv(l);
        // plain ranges keep their own counter
        let simple = match &plan { Plan::Range { lo, hi } => Some((lo.clone(), hi.clone(), false)), Plan::Rev(p) => if let Plan::Range { lo, hi } = &**p { Some((lo.clone(), hi.clone(), true)) } else { None }, _ => None };
        if let Some((lo, hi, rev)) = simple {
            let mut b: Vec<Stmt> = inv;
            if rev { b.push(parse_quote!(#i = #i - 1;)); b.push(parse_quote!(let #pat = #i;)); } else { b.push(parse_quote!(let #pat = #i;)); b.push(parse_quote!(#i = #i + 1;)); }
            b.extend(inner_hooks);
            let mut body = body.clone(); self.block(&mut body, Some(l)); let bs = body.stmts; b.extend(bs);
            out.push(if rev { parse_quote!(let mut #i = #hi;) } else { parse_quote!(let mut #i = #lo;) });
            out.extend(init);
            out.push(if rev { parse_quote!(while #lo < #i { #(#b)* }) } else { parse_quote!(while #i < #hi { #(#b)* }) });
        } else {
            let j = format_ident!("__j{}", l);
            let n_e = self.len(&plan)?;
            out.push(parse_quote!(let #n: usize = #n_e;)); out.push(parse_quote!(let mut #i: usize = 0;));
            out.extend(init);
            let mut b: Vec<Stmt> = inv;
            b.push(parse_quote!(let #j = #i;)); b.push(parse_quote!(#i = #i + 1;)); b.extend(self.hook(&format!("first {l}")));
            let ix: Expr = parse_quote!(#j);
            self.bind(&plan, pat, &ix, &mut b)?;
            b.extend(inner_hooks);
            let mut body = body.clone(); self.block(&mut body, Some(l)); let bs = body.stmts; b.extend(bs);
            out.push(parse_quote!(while #i < #n { #(#b)* }));
        }
        out.extend(self.hook(&format!("after {l}")));
        Ok(out)
    }
    fn block(&mut self, b: &mut Block, owner: Option<usize>) {
        let old = std::mem::take(&mut b.stmts);
        let mut new: Vec<Stmt> = vec![];
        for mut s in old {
            // iter.for_each(|pat| body)
            let fe = match &s { Stmt::Expr(Expr::MethodCall(m), _) if m.method == "for_each" && m.args.len() == 1 => { if let Expr::Closure(c) = &m.args[0] { Some((c.inputs[0].clone(), (*m.receiver).clone(), match &*c.body { Expr::Block(b) => b.block.clone(), e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), Some(Default::default()))] } })) } else { None } } _ => None };
            if let Some((p, e, body)) = fe { self.drops.insert("for_each closure lowered to a loop".into()); match self.lower_for(&p, &e, &body) { Ok(v) => { new.extend(v); continue } Err(m) => { self.fail(m); continue } } }
            match s {
                Stmt::Expr(Expr::ForLoop(f), _) => { if f.label.is_some() { self.fail("labelled loop".into()) } match self.lower_for(&f.pat, &f.expr, &f.body) { Ok(v) => new.extend(v), Err(m) => self.fail(m) } }
                Stmt::Expr(Expr::While(mut w), semi) => {
                    let l = self.loops; self.loops += 1;
                    new.extend(self.hook(&format!("before {l}"))); new.extend(self.hook(&format!("init {l}")));
                    self.visit_expr_mut(&mut w.cond);
                    let mut inv = self.inv(l); inv.extend(self.hook(&format!("start {l}")));
                    self.block(&mut w.body, Some(l)); inv.extend(std::mem::take(&mut w.body.stmts)); w.body.stmts = inv; w.attrs.clear();
                    new.push(Stmt::Expr(Expr::While(w), semi)); new.extend(self.hook(&format!("after {l}")));
                }
                Stmt::Expr(Expr::Loop(mut w), semi) => {
                    let l = self.loops; self.loops += 1;
                    new.extend(self.hook(&format!("before {l}"))); new.extend(self.hook(&format!("init {l}")));
                    let mut inv = self.inv(l); inv.extend(self.hook(&format!("start {l}")));
                    self.block(&mut w.body, Some(l)); inv.extend(std::mem::take(&mut w.body.stmts)); w.body.stmts = inv;
                    new.push(Stmt::Expr(Expr::Loop(w), semi)); new.extend(self.hook(&format!("after {l}")));
                }
                Stmt::Macro(ref m) => match self.stmt_macro(m) { Ok(v) => new.extend(v), Err(e) => self.fail(e) },
                Stmt::Item(Item::Fn(ref f)) if self.s.subs.iter().any(|(x, _)| x.starts_with(&f.sig.ident.to_string())) => { self.drops.insert(format!("inner function {} (extracted on its own)", f.sig.ident)); }
                Stmt::Item(Item::Use(_)) => { self.drops.insert("local use".into()); }
                Stmt::Expr(Expr::MethodCall(ref m), _) if self.g.noops.contains(&m.method.to_string()) => { self.drops.insert(format!("call of {} (validity check of dimensions; stated as a precondition)", m.method)); }
                _ => { self.visit_stmt_mut(&mut s); new.push(s) }
            }
        }
        if let Some(l) = owner {
            let h = self.hook(&format!("end {l}"));
            if !h.is_empty() { if let Some(Stmt::Expr(_, semi @ None)) = new.last_mut() { *semi = Some(Default::default()) } new.extend(h) }
        }
        b.stmts = new;
    }
    fn stmt_macro(&mut self, m: &StmtMacro) -> R<Vec<Stmt>> {
        let n = m.mac.path.segments.last().unwrap().ident.to_string();
        let parse_args = || m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string());
        Ok(match n.as_str() {
            "assert" | "debug_assert" => { let a = parse_args()?; let mut c = a[0].clone(); self.visit_expr_mut(&mut c); vec![parse_quote!(rt_assert(#c);)] }
            "assert_eq" | "debug_assert_eq" => { let a = parse_args()?; let (mut x, mut y) = (a[0].clone(), a[1].clone()); self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut y); vec![parse_quote!(rt_assert(#x == #y);)] }
            "assert_ne" => { let a = parse_args()?; let (x, y) = (&a[0], &a[1]); vec![parse_quote!(rt_assert(#x != #y);)] }
            "allocate_scratch_ref" => {
                // allocate_scratch_ref!(name, Type, (params))
                let (id, ty, ps) = m.mac.parse_body_with(|p: parse::ParseStream| { let id: Ident = p.parse()?; p.parse::<Token![,]>()?; let ty: Type = p.parse()?; p.parse::<Token![,]>()?; let e: Expr = p.parse()?; let _ = p.parse::<Option<Token![,]>>(); Ok((id, ty, e)) }).map_err(|e| e.to_string())?;
                let key = ty.to_token_stream().to_string().replace(' ', "");
                let Some(f) = self.g.scratch.iter().find(|(k, _)| key.starts_with(k.as_str())).map(|x| x.1.clone()) else { bail!("scratch type {key}") };
                let f = format_ident!("{}", f); self.drops.insert(format!("allocate_scratch_ref!({key}) replaced by a function returning arbitrary contents of the requested length"));
                let args: Vec<Expr> = match ps { Expr::Tuple(t) => t.elems.into_iter().collect(), Expr::Paren(p) => vec![*p.expr], e => vec![e] };
                vec![parse_quote!(let #id = #f(#(#args),*);)]
            }
            "__vp" | "__vinv" | "__vcanary" => vec![Stmt::Macro(m.clone())],
            "debug" | "trace" | "info" | "warn" => { self.drops.insert("logging".into()); vec![] }
            "panic" | "unreachable" | "unimplemented" | "todo" => vec![parse_quote!(rt_assert(false);)],
            _ => bail!("macro {n}! not understood"),
        })
    }
}

impl<'a> VisitMut for Ctx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) { self.block(b, None) }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // expression-position rewrites
        if let Expr::ForLoop(f) = e { match self.lower_for(&f.pat.clone(), &f.expr.clone(), &f.body.clone()) { Ok(v) => { *e = parse_quote!({ #(#v)* }); } Err(m) => self.fail(m) } return }
        if let Expr::Macro(m) = e { let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if matches!(n.as_str(), "assert" | "assert_eq" | "panic" | "unreachable" | "debug_assert") { match self.stmt_macro(&StmtMacro { attrs: vec![], mac: m.mac.clone(), semi_token: None }) { Ok(v) => { if matches!(n.as_str(), "panic" | "unreachable") { *e = parse_quote!(rt_panic()) } else { *e = parse_quote!({ #(#v)* }) } } Err(x) => self.fail(x) } return }
            if n == "vec" { return }
            self.fail(format!("macro {n}! in expression position")); return }
        // a.fetch_update(set, fetch, |c| body): one atomic step whose new value is what the closure body says
        if let Expr::MethodCall(m) = e { if m.method == "fetch_update" && m.args.len() == 3 { if let Expr::Closure(c) = &m.args[2] { if c.inputs.len() == 1 {
            let (rc, so, fo, pat, mut body) = ((*m.receiver).clone(), m.args[0].clone(), m.args[1].clone(), c.inputs[0].clone(), (*c.body).clone());
            self.visit_expr_mut(&mut body); self.drops.insert("fetch_update with a closure written as one atomic step (read, closure body, conditional write)".into());
            *e = parse_quote!({ let __cur = #rc.upd_read(#fo); let __new = { let #pat = __cur; #body }; match __new { Some(__nv) => { #rc.upd_commit(__cur, __nv, #so); Ok(__cur) } None => Err(__cur) } }); return } } } }
        // iter.all(closure) / iter.any(closure): a loop with the same short-circuit condition
        if let Expr::MethodCall(m) = e { if (m.method == "all" || m.method == "any") && m.args.len() == 1 { if let Expr::Closure(c) = &m.args[0] { if c.inputs.len() == 1 {
            let l = self.loops; let v = format_ident!("__a{}", l); let all = m.method == "all"; let (pat, rc, body) = (c.inputs[0].clone(), (*m.receiver).clone(), (*c.body).clone());
            let bb: Block = if all { parse_quote!({ #v = #v && (#body); }) } else { parse_quote!({ #v = #v || (#body); }) };
            match self.lower_for(&pat, &rc, &bb) { Ok(b) => { self.drops.insert("all/any of a closure lowered to a loop".into()); *e = parse_quote!({ let mut #v: bool = #all; #(#b)* #v }); } Err(m) => self.fail(m) } return } } } }
        // iter.fold(init, |acc, pat| body): a loop that updates the accumulator
        if let Expr::MethodCall(m) = e { if m.method == "fold" && m.args.len() == 2 { if let Expr::Closure(c) = &m.args[1] { if c.inputs.len() == 2 {
            let (acc, pat, rc, body) = (c.inputs[0].clone(), c.inputs[1].clone(), (*m.receiver).clone(), (*c.body).clone()); let mut init = m.args[0].clone(); self.visit_expr_mut(&mut init);
            if let Pat::Ident(a) = &acc { let a = a.ident.clone(); match self.lower_for(&pat, &rc, &parse_quote!({ #a = #body; })) { Ok(b) => { self.drops.insert("fold of a closure lowered to a loop that updates its accumulator".into()); *e = parse_quote!({ let mut #a = #init; #(#b)* #a }); } Err(m) => self.fail(m) } return } } } } }
        // iter.find(closure): a loop that keeps the first element the closure accepts
        if let Expr::MethodCall(m) = e { if m.method == "find" && m.args.len() == 1 { if let Expr::Closure(c) = &m.args[0] { if c.inputs.len() == 1 {
            let l = self.loops; let (v, x) = (format_ident!("__f{}", l), format_ident!("__x{}", l)); let (pat, rc, body) = (c.inputs[0].clone(), (*m.receiver).clone(), (*c.body).clone());
            match self.lower_for(&parse_quote!(#x), &rc, &parse_quote!({ if #v.is_none() { let #pat = &#x; if #body { #v = Some(#x); } } })) { Ok(b) => { self.drops.insert("find with a closure lowered to a loop that keeps the first match".into()); *e = parse_quote!({ let mut #v = None; #(#b)* #v }); } Err(m) => self.fail(m) } return } } } }
        // r.map_err(|_| E): the error value is a constant expression
        if let Expr::MethodCall(m) = e { if m.method == "map_err" && m.args.len() == 1 { if let Expr::Closure(c) = &m.args[0] { if c.inputs.len() == 1 && matches!(c.inputs[0], Pat::Wild(_)) {
            let mut rc = (*m.receiver).clone(); let body = (*c.body).clone(); self.visit_expr_mut(&mut rc); *e = parse_quote!(match #rc { Ok(__ok) => Ok(__ok), Err(_) => Err(#body) }); self.drops.insert("map_err(|_| e) written as a match".into()); return } } } }
        // o.and_then(|x| e) on an Option
        if let Expr::MethodCall(m) = e { if m.method == "and_then" && m.args.len() == 1 { if let Expr::Closure(c) = &m.args[0] { if c.inputs.len() == 1 {
            let (mut rc, mut body, pat) = ((*m.receiver).clone(), (*c.body).clone(), c.inputs[0].clone()); self.visit_expr_mut(&mut rc); self.visit_expr_mut(&mut body); *e = parse_quote!(match #rc { Some(#pat) => #body, None => None }); self.drops.insert("Option::and_then of a closure written as a match".into()); return } } } }
        // remap_inputs(k, || body): the closure is called once, before anything else happens, so its value is passed instead
        if let Expr::MethodCall(m) = e { if m.method == "remap_inputs" && m.args.len() == 2 { if let Expr::Closure(c) = &m.args[1] { if c.inputs.is_empty() {
            let mut b = (*c.body).clone(); self.visit_expr_mut(&mut b); let mut a0 = m.args[0].clone(); self.visit_expr_mut(&mut a0); let rc = m.receiver.clone(); let h = self.hook("args");
            self.drops.insert("the argument closure of remap_inputs is evaluated before the call and its value passed".into());
            *e = parse_quote!({ let __k = #a0; let __enc = #b; #(#h)* #rc.remap_inputs(__k, __enc) }); return
        } } } }
        // iter.map(closure).collect::<Result<Vec<_>>>()?: a loop that pushes into a Vec and returns the first error
        if let Expr::Try(q) = e { if let Expr::MethodCall(m) = &*q.expr { if m.method == "collect" && m.turbofish.to_token_stream().to_string().contains("Result") {
            let l = self.loops; let (v, x) = (format_ident!("__v{}", l), format_ident!("__x{}", l)); let rc = (*m.receiver).clone();
            match self.lower_for(&parse_quote!(#x), &rc, &parse_quote!({ match #x { Ok(__ok) => { #v.push(__ok); } Err(__e) => { return Err(__e); } } })) { Ok(b) => { self.drops.insert("collect::<Result<Vec>>()? lowered to a loop that pushes into a Vec and returns the first error".into()); *e = parse_quote!({ let mut #v = Vec::new(); #(#b)* #v }); } Err(m) => self.fail(m) } return } } }
        // iter.flat_map(closure).collect(), vec.into_iter().flatten().collect(): a loop that appends
        if let Expr::MethodCall(m) = e { if m.method == "collect" { if let Expr::MethodCall(r) = &*m.receiver { if r.method == "flat_map" || r.method == "flatten" {
            let l = self.loops; let (v, x) = (format_ident!("__v{}", l), format_ident!("__x{}", l));
            let (pat, rc, body): (Pat, Expr, Expr) = if r.method == "flatten" { (parse_quote!(#x), (*r.receiver).clone(), parse_quote!(#x)) } else { let Expr::Closure(c) = &r.args[0] else { self.fail("flat_map of a non-closure".into()); return }; (c.inputs[0].clone(), (*r.receiver).clone(), (*c.body).clone()) };
            // a receiver that is not an iterator chain the plans know is evaluated first
            let (pre, rc): (Vec<Stmt>, Expr) = match &rc { Expr::MethodCall(i) if i.method == "into_iter" && matches!(&*i.receiver, Expr::Try(_)) => { let mut z = (*i.receiver).clone(); self.visit_expr_mut(&mut z); let o = format_ident!("__w{}", l); (vec![parse_quote!(let #o = #z;)], parse_quote!(#o.into_iter())) } _ => (vec![], rc) };
            let l = self.loops; let v2 = format_ident!("__v{}", l); let _ = v; let v = v2;
            let plan_src = rc; let b2: Block = parse_quote!({ let mut __part = #body; #v.append(&mut __part); });
            match self.lower_for(&pat, &plan_src, &b2) { Ok(b) => { self.drops.insert("flat_map/flatten(..).collect() lowered to a loop appending to a Vec".into()); *e = parse_quote!({ #(#pre)* let mut #v = Vec::new(); #(#b)* #v }); } Err(m) => self.fail(m) } return } } } }
        // iter.map(closure).collect(): a loop that pushes into a Vec
        if let Expr::MethodCall(m) = e { if m.method == "collect" && (matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "map" || r.method == "chain" || (self.s.cloned && r.method == "cloned")) || matches!(&*m.receiver, Expr::Paren(p) if matches!(&*p.expr, Expr::Range(_)))) {
            let l = self.loops; let (v, x) = (format_ident!("__v{}", l), format_ident!("__x{}", l)); let rc = (*m.receiver).clone();
            match self.lower_for(&parse_quote!(#x), &rc, &parse_quote!({ #v.push(#x); })) { Ok(b) => { self.drops.insert("map(..).collect() lowered to a loop pushing into a Vec".into()); *e = parse_quote!({ let mut #v = Vec::new(); #(#b)* #v }); } Err(m) => self.fail(m) } return } }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            m.turbofish = m.turbofish.take();
            if self.s.byref { let n = m.method.to_string(); if let Some(r) = n.strip_prefix("wrapping_") { m.method = format_ident!("w_{}", r); self.drops.insert("num::traits wrapping operations on &S renamed to the prelude's contract-bearing equivalents".into()); } }
        }
        if let Expr::Unsafe(u) = e { let b = &u.block; *e = parse_quote!(#b); self.drops.insert("unsafe block marker".into()); }
    }
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}
    fn visit_local_mut(&mut self, l: &mut Local) { l.attrs.clear(); visit_mut::visit_local_mut(self, l) }
}

struct SigFix<'a> { g: &'a Global }
impl<'a> VisitMut for SigFix<'a> {
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        let keep: punctuated::Punctuated<GenericParam, Token![,]> = g.params.iter().filter(|p| match p { GenericParam::Type(t) => !self.g.dropgen.contains(&t.ident.to_string()), _ => true }).cloned().collect();
        g.params = keep; g.where_clause = None;
        for p in g.params.iter_mut() { if let GenericParam::Type(t) = p { let keep: punctuated::Punctuated<TypeParamBound, Token![+]> = t.bounds.iter().filter(|b| matches!(b, TypeParamBound::Trait(x) if x.path.is_ident("Copy") || x.path.is_ident("Clone"))).cloned().collect(); if keep.is_empty() { t.colon_token = None } t.bounds = keep } }
        if g.params.is_empty() { g.lt_token = None; g.gt_token = None }
    }
}

fn closures(b: &Block) -> Vec<ExprClosure> {
    struct V(Vec<ExprClosure>);
    impl<'a> syn::visit::Visit<'a> for V { fn visit_expr_closure(&mut self, c: &'a ExprClosure) { self.0.push(c.clone()); syn::visit::visit_expr_closure(self, c) } }
    let mut v = V(vec![]); syn::visit::Visit::visit_block(&mut v, b); v.0
}
fn local_closure(b: &Block) -> R<(usize, ExprClosure, Ident)> {
    let mut v = vec![];
    for (i, s) in b.stmts.iter().enumerate() { if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) = s { if let Expr::Closure(c) = &**expr { if c.inputs.is_empty() { v.push((i, c.clone(), p.ident.clone())) } } } }
    if v.len() != 1 { bail!("{} local closures without parameters", v.len()) }
    Ok(v.remove(0))
}
/// The parameters of the closure are bound to `__p0`, `__p1`, ...: the signature of the block names them.
fn closure_fn(c: &ExprClosure) -> ItemFn {
    let lets: Vec<Stmt> = c.inputs.iter().enumerate().filter(|(_, p)| !matches!(p, Pat::Wild(_))).map(|(i, p)| { let id = format_ident!("__p{}", i); let p = if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }; parse_quote!(let #p = #id;) }).collect();
    let body = &c.body; let body: Block = if let Expr::Block(b) = &**body { let b = &b.block.stmts; parse_quote!({ #(#lets)* #(#b)* }) } else { parse_quote!({ #(#lets)* #body }) };
    let mut f: ItemFn = parse_quote!(fn closure() -> _ {}); f.block = Box::new(body); f
}
/// `let f = || ..;` is removed and every `f()` becomes the given call.
fn lift(b: &mut Block, call: &str) -> R<()> {
    let (i, _, name) = local_closure(b)?; b.stmts.remove(i);
    struct L(Ident, Expr);
    impl VisitMut for L { fn visit_expr_mut(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); if let Expr::Call(c) = &*e { if c.args.is_empty() && matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.0)) { *e = self.1.clone() } } } }
    L(name, parse_str(call).map_err(|e| e.to_string())?).visit_block_mut(b); Ok(())
}
struct NameClosures<'a>(&'a Vec<String>, usize);
impl VisitMut for NameClosures<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_)) { if let Some(n) = self.0.get(self.1) { let p: Expr = parse_str(n).unwrap(); *e = p } self.1 += 1; return }
        visit_mut::visit_expr_mut(self, e)
    }
}
/// The processor's operations on plaintext registers: `unwrap_registers!` is dropped (the signature of the block names the registers
/// themselves), what a register pattern binds is copied out of the register, and code for encrypted operands becomes a call of
/// `encrypted()`, whose precondition is false.
struct Registers(bool, String, bool);
impl Registers {
    fn dead(&mut self) -> Stmt { self.0 = true; parse_quote!(return encrypted();) }
    fn bound(p: &Pat) -> Vec<Ident> {
        struct V(Vec<Ident>);
        impl<'a> syn::visit::Visit<'a> for V { fn visit_pat_struct(&mut self, p: &'a PatStruct) {
            if p.path.to_token_stream().to_string().replace(' ', "") == "Register::Plaintext" { for f in &p.fields { if let Pat::Ident(i) = &*f.pat { self.0.push(i.ident.clone()) } } } syn::visit::visit_pat_struct(self, p) } }
        let mut v = V(vec![]); syn::visit::Visit::visit_pat(&mut v, p); v.0
    }
    fn copy_out(names: &[Ident], b: &mut Block) {
        struct D<'a>(&'a [Ident]);
        impl VisitMut for D<'_> { fn visit_expr_mut(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*e { if let Expr::Path(p) = &**expr { if self.0.iter().any(|n| p.path.is_ident(n)) { *e = Expr::Path(p.clone()) } } } } }
        D(names).visit_block_mut(b);
        for n in names.iter().rev() { b.stmts.insert(0, parse_quote!(let #n = *#n;)) }
    }
}
impl VisitMut for Registers {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let sig = self.1.clone();
        b.stmts = std::mem::take(&mut b.stmts).into_iter().flat_map(|s| match s {
            Stmt::Macro(m) if m.mac.path.is_ident("unwrap_registers") => m.mac.tokens.into_iter().filter_map(|t| {
                // a register that is not a parameter is read where it is unwrapped
                let n: Ident = parse_str(t.to_string().trim_matches(|c| c == '(' || c == ')').trim_start_matches("mut ").trim()).ok()?;
                if sig.contains(&format!("{n}:")) { None } else { Some(parse_quote!(let #n = #n.entry();)) } }).collect::<Vec<Stmt>>(),
            s => vec![s],
        }).collect();
        if let Some(i) = b.stmts.iter().position(|s| matches!(s, Stmt::Local(_)) && s.to_token_stream().to_string().contains("register_to_l1glwe_by_trivial_lift")) { b.stmts.truncate(i); let d = self.dead(); b.stmts.push(d); }
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, e);
        if let Expr::Let(l) = &*e.cond { let n = Self::bound(&l.pat); if !n.is_empty() { Self::copy_out(&n, &mut e.then_branch) } }
    }
    fn visit_expr_match_mut(&mut self, e: &mut ExprMatch) {
        for a in e.arms.iter_mut() {
            let p = a.pat.to_token_stream().to_string();
            if !self.2 && p.contains("Ciphertext") || (!self.2 && matches!(a.pat, Pat::Wild(_)) && a.body.to_token_stream().to_string().contains("todo !")) { let d = self.dead(); a.body = Box::new(parse_quote!({ #d })); }
        }
        visit_mut::visit_expr_match_mut(self, e);
        for a in e.arms.iter_mut() {
            let n = Self::bound(&a.pat);
            if !n.is_empty() { let body = &a.body; let mut b: Block = if let Expr::Block(b) = &**body { b.block.clone() } else { parse_quote!({ #body }) }; Self::copy_out(&n, &mut b); a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })); a.comma = None; }
        }
    }
}
/// Marks the places where a function is left by `return Ok(..)`.
struct LastReturn;
impl VisitMut for LastReturn {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        b.stmts = std::mem::take(&mut b.stmts).into_iter().flat_map(|s| if s.to_token_stream().to_string().starts_with("return Ok") { vec![parse_quote!(__vcanary!();), s] } else { vec![s] }).collect();
    }
}
/// `a.map(|x| e)` on an array declared `//@slice a array N`, written out element by element.
struct ArrayMap<'a>(&'a BTreeMap<String, String>);
impl VisitMut for ArrayMap<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = &*e { if m.method == "map" && m.args.len() == 1 {
            if let (Some(n), Expr::Closure(c)) = (self.0.get(&m.receiver.to_token_stream().to_string().replace(' ', "")).and_then(|k| k.strip_prefix("array ")), &m.args[0]) { if let (Some(Pat::Ident(p)), Ok(n)) = (c.inputs.first(), n.parse::<usize>()) {
                let (r, b, p) = (&m.receiver, &c.body, &p.ident);
                let els = (0..n).map(|i| { let i = LitInt::new(&i.to_string(), proc_macro2::Span::call_site()); quote!({ let #p = #r[#i]; #b }) });
                *e = parse_quote!([#(#els),*]);
            } }
        } }
    }
}

fn extract(s: &Spec, g: &Global, repo: &str) -> R<String> {
    let mut src = read(&format!("{repo}/{}", s.file))?;
    for (x, y) in &s.presubs { if !src.contains(x.as_str()) { bail!("presub text not found: {x}") } src = src.replace(x.as_str(), y); }
    let file = parse_file(&src).map_err(|e| e.to_string())?;
    let mut found = vec![];
    if let Some((name, args)) = &s.mac {
        let ts = find_macro(&file.items, name).ok_or_else(|| format!("macro {name} not found"))?;
        let text = expand_macro(ts, args)?;
        let f = parse_file(&text).map_err(|e| format!("expanded macro: {e}"))?;
        search(&f.items, &s.path, true, &mut found); if found.is_empty() { search(&f.items, &s.path, false, &mut found); }
    } else if let Some((outer, inner)) = s.path.split_once(" >> ") {
        // a function defined inside the body of another
        let mut o = vec![]; search(&file.items, outer, true, &mut o); if o.is_empty() { search(&file.items, outer, false, &mut o); }
        for f in o { let b = match f { Found::Free(f) => *f.block, Found::Method(f) => f.block };
            // `OUTER >> closure` the body of its one local closure without parameters, `OUTER >> closure K` of its K-th closure
            if inner == "closure" { found.push(Found::Free(closure_fn(&local_closure(&b)?.1))); continue }
            if let Some(k) = inner.strip_prefix("closure ") { let v = closures(&b); let k: usize = k.parse().map_err(|_| "bad closure number")?; let Some(c) = v.get(k) else { bail!("no closure {k}") }; found.push(Found::Free(closure_fn(c))); continue }
            for st in b.stmts { if let Stmt::Item(Item::Fn(f)) = st { if f.sig.ident == inner { found.push(Found::Free(f)) } } } }
    } else { search(&file.items, &s.path, true, &mut found); if found.is_empty() { search(&file.items, &s.path, false, &mut found); } }
    let (path, idx) = (s.path.clone(), 0usize);
    if found.len() != 1 { bail!("{} definitions of {path}", found.len()) }
    let (mut vis, mut sig, mut block) = match found.remove(idx) { Found::Free(f) => (f.vis, f.sig, *f.block), Found::Method(f) => (f.vis, f.sig, f.block) };
    let _ = &mut vis;
    let mut c = Ctx { g, s, loops: 0, used: BTreeSet::new(), err: None, pending: vec![], drops: BTreeSet::new() };
    if !sig.generics.params.is_empty() || sig.generics.where_clause.is_some() { c.drops.insert(format!("generic parameters and bounds {} {} (instantiated by the unit)", sig.generics.to_token_stream(), sig.generics.where_clause.to_token_stream())); }
    SigFix { g }.visit_signature_mut(&mut sig);
    if let Some(n) = &s.rename { sig.ident = format_ident!("{}", n); }
    sig.unsafety = None; sig.constness = None;
    // `mut x: T` and pattern parameters are kept; attributes on parameters dropped
    for a in sig.inputs.iter_mut() { match a { FnArg::Typed(t) => t.attrs.clear(), FnArg::Receiver(r) => r.attrs.clear() } }
    if let Some(l) = &s.lift { lift(&mut block, l)?; c.drops.insert("local closure lifted to a function of its own (extracted as well)".into()); }
    if !s.closures.is_empty() { let mut v = NameClosures(&s.closures, 0); v.visit_block_mut(&mut block); if v.1 != s.closures.len() { bail!("{} closures", v.1) } c.drops.insert("closures named as functions (extracted as well)".into()); }
    if s.registers { let mut r = Registers(false, s.sig.clone().unwrap_or_default(), s.regkeep); r.visit_block_mut(&mut block); c.drops.insert("guards of the register file: the operands are the registers they guard".into()); if r.0 { c.drops.insert("branches for encrypted operands (proved not to be reached with plaintext ones)".into()); } }
    // a function that ends in dropped code is left through its last `return`
    let dead_end = s.registers && matches!(block.stmts.last(), Some(st) if st.to_token_stream().to_string() == "return encrypted () ;");
    if dead_end { LastReturn.visit_block_mut(&mut block); }
    ArrayMap(&s.slices).visit_block_mut(&mut block);
    inline_closures(&sig, &mut block, &mut c.drops);
    c.block(&mut block, None);
    let mut st = c.hook("start"); st.extend(std::mem::take(&mut block.stmts)); block.stmts = st;
    let fin = { let mut h = c.hook("end"); if !dead_end { h.extend::<Vec<Stmt>>(vec![parse_quote!(__vcanary!();)]); } h };
    // a function of non-unit type that ends in a panic: make the panic the (diverging) tail
    if !matches!(sig.output, ReturnType::Default) { if let Some(Stmt::Expr(Expr::Call(e), Some(_))) = block.stmts.last() { if e.to_token_stream().to_string() == "rt_assert (false)" { block.stmts.pop(); block.stmts.push(Stmt::Expr(parse_quote!(rt_panic()), None)); } } }
    let tail_is_expr = matches!(block.stmts.last(), Some(Stmt::Expr(e, None)) if !matches!(e, Expr::While(_) | Expr::Loop(_)) ) && !matches!(sig.output, ReturnType::Default);
    if tail_is_expr { if s.hooks.contains_key("end-bind") { c.used.insert("end-bind".into()); let Some(Stmt::Expr(e, None)) = block.stmts.pop() else { unreachable!() }; block.stmts.push(parse_quote!(let __r = #e;)); block.stmts.push(parse_quote!(__vp!(h_end_bind);)); block.stmts.extend(fin); block.stmts.push(Stmt::Expr(parse_quote!(__vreturn!()), None)); }
        else { let t = block.stmts.pop().unwrap(); block.stmts.extend(fin); block.stmts.push(t); } }
    else { if let Some(Stmt::Expr(e, semi @ None)) = block.stmts.last_mut() { if !matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_)) { *semi = Some(Default::default()) } } block.stmts.extend(fin); }
    if let Some(e) = c.err { bail!("{e}") }
    for k in s.hooks.keys() { if !c.used.contains(k) { bail!("annotation point '{k}' does not exist in the current source") } }
    let f = ItemFn { attrs: vec![], vis: Visibility::Inherited, sig: parse_quote!(fn __f()), block: Box::new(block) };
    let body = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Fn(f)] });
    let mut body = body.trim_start().strip_prefix("fn __f()").ok_or("printing")?.to_string();
    // loop annotations
    for (k, text) in &s.hooks {
        let id = format!("h_{}", k.replace([' ', '-'], "_"));
        if k.starts_with("loop ") {
            let pat = format!("__vinv!({id});");
            let at = body.find(&pat).ok_or("lost invariant marker")?;
            let open = body[..at].rfind('{').ok_or("no brace")?;
            body = format!("{}\n{}{}{}", body[..open].trim_end(), text, &body[open..at], &body[at + pat.len()..]);
        } else {
            let pat = format!("__vp!({id});");
            if !body.contains(&pat) { bail!("lost marker {k}") }
            body = body.replacen(&pat, text.trim_end(), 1);
        }
    }
    body = body.replace("__vreturn!()", "__r");
    for (x, y) in s.subs.iter().chain(&s.opt).chain(&g.allow) { if s.subs.iter().any(|z| z.0 == *x) && !body.contains(x.as_str()) { bail!("substitution text not found: {x}") } body = body.replace(x.as_str(), y); }
    for (x, y) in &s.subs { println!("DROP {} :: {}: text `{x}` replaced by `{y}`", s.file, s.path); }
    for d in &c.drops { println!("DROP {} :: {}: {d}", s.file, s.path); }
    println!("FN {} :: {}", s.file, s.path);
    let mut sigtext = match &s.sig { Some(x) => { println!("DROP {} :: {}: signature rewritten as `{x}`", s.file, s.path); x.clone() } None => {
        let out = std::mem::replace(&mut sig.output, ReturnType::Default);
        let mut t = quote!(#sig).to_string();
        if let ReturnType::Type(_, ty) = out { t += &format!(" -> ({}: {})", s.ret, ty.to_token_stream()); }
        for (x, y) in &g.allow { t = t.replace(x.as_str(), y); }
        t } };
    if matches!(vis, Visibility::Public(_)) || true { if !s.path.starts_with('<') { sigtext = if let (true, Some(k)) = (sigtext.starts_with("#["), sigtext.find("] ")) { format!("{} pub {}", &sigtext[..k + 1], &sigtext[k + 2..]) } else { format!("pub {sigtext}") } } }
    Ok(format!("// FN {} :: {}\n{}\n{}{}\n// ENDFN\n", s.file, s.path, sigtext, s.contract, body))
}
