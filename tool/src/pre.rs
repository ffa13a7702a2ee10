//! Rewritings of the parsed source before anything else looks at it: calls of the crate's own `macro_rules!` macros (one rule, plain
//! parameters) are expanded, and closures bound to a local are put where they are called.
use proc_macro2::{Delimiter, TokenStream, TokenTree as T};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Rule { params: Vec<(String, String)>, body: TokenStream }

/// `($a:expr, $b:ident $(,)?) => { body }`
fn rule(ts: TokenStream) -> Option<Rule> {
    let v: Vec<T> = ts.into_iter().filter(|t| !matches!(t, T::Punct(p) if p.as_char() == ';')).collect();
    let g: Vec<_> = v.iter().filter_map(|t| if let T::Group(g) = t { Some(g.clone()) } else { None }).collect();
    if g.len() != 2 { return None; }
    let pat: Vec<T> = g[0].stream().into_iter().collect();
    let mut params = vec![];
    let mut i = 0;
    while i < pat.len() {
        match (&pat[i], pat.get(i + 1), pat.get(i + 2), pat.get(i + 3)) {
            (T::Punct(d), Some(T::Ident(n)), Some(T::Punct(c)), Some(T::Ident(k))) if d.as_char() == '$' && c.as_char() == ':' && ["expr", "ident", "literal", "ty"].contains(&k.to_string().as_str()) => { params.push((n.to_string(), k.to_string())); i += 4; }
            (T::Punct(c), ..) if c.as_char() == ',' => i += 1,
            (T::Punct(d), Some(T::Group(x)), Some(T::Punct(q)), None) if d.as_char() == '$' && x.stream().to_string() == "," && (q.as_char() == '?' || q.as_char() == '*') => i += 3,
            _ => return None,
        }
    }
    let body = g[1].stream();
    // a macro's own locals are invisible to its arguments: not followed
    if body.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "let" || w == "return") { return None; }
    Some(Rule { params, body })
}

fn put(ts: TokenStream, env: &BTreeMap<String, TokenStream>) -> Option<TokenStream> {
    let v: Vec<T> = ts.into_iter().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (T::Punct(p), Some(T::Ident(n))) if p.as_char() == '$' => { o.extend(env.get(&n.to_string())?.clone()); i += 2; }
            (T::Punct(p), _) if p.as_char() == '$' => return None,
            (T::Group(g), _) => { let mut n = proc_macro2::Group::new(g.delimiter(), put(g.stream(), env)?); n.set_span(g.span()); o.push(T::Group(n)); i += 1; }
            _ => { o.push(v[i].clone()); i += 1; }
        }
    }
    Some(o.into_iter().collect())
}

pub struct Macros { rules: BTreeMap<String, Option<Rule>>, pub err: Option<String> }
impl Macros {
    pub fn of(f: &File) -> Self {
        let mut rules = BTreeMap::new();
        for i in &f.items { if let Item::Macro(m) = i { if let Some(n) = &m.ident { rules.insert(n.to_string(), rule(m.mac.tokens.clone())); } } }
        Macros { rules, err: None }
    }
    fn expand(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.get_ident()?.to_string();
        let Some(r) = self.rules.get(&n)? else { self.err = Some(format!("unsupported construct: macro_rules! {n}")); return None };
        let mut args: Vec<TokenStream> = vec![TokenStream::new()];
        for t in m.tokens.clone() { if matches!(&t, T::Punct(p) if p.as_char() == ',') { args.push(TokenStream::new()); } else { args.last_mut().unwrap().extend([t]); } }
        if args.last().unwrap().is_empty() { args.pop(); }
        let out = (|| {
            if args.len() != r.params.len() { return None; }
            let env = r.params.iter().zip(args).map(|((n, k), a)| (n.clone(), if k == "expr" { TokenStream::from(T::Group(proc_macro2::Group::new(Delimiter::Parenthesis, a))) } else { a })).collect();
            let b = put(r.body.clone(), &env)?;
            let b = TokenStream::from(T::Group(proc_macro2::Group::new(Delimiter::Brace, b)));
            parse2::<Expr>(b).ok()
        })();
        if out.is_none() { self.err = Some(format!("unsupported construct: macro_rules! {n}")); }
        out
    }
}
impl VisitMut for Macros {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if let Some(x) = self.expand(&m.mac) { *e = x; } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s { if let Some(x) = self.expand(&m.mac) { *s = Stmt::Expr(x, m.semi_token); } }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// How often each name is bound in a function, and whether an expression leaves its closure.
#[derive(Default)]
struct Names { bound: BTreeMap<String, usize>, used: Vec<String>, leaves: bool }
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, i: &'a PatIdent) { *self.bound.entry(i.ident.to_string()).or_default() += 1; visit::visit_pat_ident(self, i); }
    fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.used.push(i.to_string()); } }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.leaves = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.leaves = true; }
    fn visit_macro(&mut self, m: &'a Macro) { fn w(ts: TokenStream, v: &mut Vec<String>) { for t in ts { match t { T::Ident(i) => v.push(i.to_string()), T::Group(g) => w(g.stream(), v), T::Literal(l) => v.extend(l.to_string().split('{').skip(1).map(|x| x.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect())), _ => {} } } } w(m.tokens.clone(), &mut self.used); }
}

struct Put<'a> { name: &'a str, c: &'a ExprClosure, bad: bool }
impl<'a> VisitMut for Put<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let is = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident(self.name)) || matches!(e, Expr::Closure(c) if c == self.c);
        if let Expr::Call(k) = e {
            let mut f = &*k.func;
            while let Expr::Paren(p) = f { f = &p.expr; }
            if is(f) {
                let c = self.c;
                if k.args.len() != c.inputs.len() { self.bad = true; return; }
                let body = &c.body;
                let (ps, args): (Vec<_>, Vec<_>) = (c.inputs.iter().collect(), k.args.iter().collect());
                let ts = match ps.len() {
                    0 => quote::quote!({ #body }),
                    1 => { let (p, a) = (ps[0], args[0]); quote::quote!({ let #p = #a; #body }) }
                    _ => { let ps: Vec<_> = ps.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => (*p).clone() }).collect(); quote::quote!({ let (#(#ps),*) = (#(#args),*); #body }) }
                };
                match parse2(ts) { Ok(x) => *e = x, Err(_) => self.bad = true }
                return;
            }
        }
        if let Expr::Path(p) = e { if p.path.is_ident(self.name) { *e = Expr::Closure(self.c.clone()); } }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // the arguments of assertions and the like are expressions
        let named = |ts: &TokenStream| { let mut n = Names::default(); n.visit_macro(&Macro { tokens: ts.clone(), ..m.clone() }); n.used.iter().any(|x| x == self.name) };
        if !named(&m.tokens) { return; }
        match m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            Ok(mut v) => { for x in v.iter_mut() { self.visit_expr_mut(x); } m.tokens = v.to_token_stream(); }
            Err(_) => self.bad = true,
        }
    }
}

pub struct Closures;
impl Closures {
    fn block(bound: &BTreeMap<String, usize>, b: &mut Block) {
        struct In<'a>(&'a BTreeMap<String, usize>);
        impl<'a> VisitMut for In<'a> { fn visit_block_mut(&mut self, b: &mut Block) { Closures::block(self.0, b); } }
        let mut i = 0;
        while i < b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match (pat, &**expr) { (Pat::Ident(n), Expr::Closure(c)) => Some((n.ident.to_string(), c.clone())), _ => None },
                _ => None,
            };
            if let Some((name, c)) = hit {
                let mut own = Names::default();
                for p in &c.inputs { own.visit_pat(p); }
                let mut n = Names::default();
                n.visit_expr(&c.body);
                // what the body names must mean the same at the calls
                let free = n.used.iter().all(|x| own.bound.contains_key(x) || bound.get(x).copied().unwrap_or(0) <= 1 + n.bound.get(x).copied().unwrap_or(0));
                if !n.leaves && c.capture.is_none() && free && bound.get(&name) == Some(&1) {
                    let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                    let mut p = Put { name: &name, c: &c, bad: false };
                    for s in rest.iter_mut() { p.visit_stmt_mut(s); }
                    if !p.bad { b.stmts.truncate(i); b.stmts.extend(rest); continue; }
                }
            }
            i += 1;
        }
        for s in b.stmts.iter_mut() { In(bound).visit_stmt_mut(s); }
    }
    fn go(sig: &Signature, b: &mut Block) {
        let mut n = Names::default();
        n.visit_signature(sig);
        n.visit_block(b);
        Self::block(&n.bound, b);
    }
}
impl VisitMut for Closures {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) { Self::go(&f.sig, &mut f.block); }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) { Self::go(&f.sig, &mut f.block); }
}
