use crate::contract::{subst, Clause, Contract, FnC, LoopC};
use crate::krate::*;
use crate::Cfg;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::*;

fn unsup<T>(what: impl std::fmt::Display) -> R<T> { Err(format!("unsupported construct: {what}")) }

fn path_segs(p: &Path) -> Vec<String> { p.segments.iter().map(|s| s.ident.to_string()).collect() }

/// ------------------------------------------------------------------ return detection
struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn has_ret_stmt(s: &Stmt) -> bool { let mut h = HasRet(false); h.visit_stmt(s); h.0 }
fn has_ret_expr(s: &Expr) -> bool { let mut h = HasRet(false); h.visit_expr(s); h.0 }

pub struct Em<'a> {
    k: &'a Krate,
    con: &'a Contract,
    cfg: &'a Cfg,
    contracted: &'a BTreeSet<String>,
    uid: usize,
    // per function being emitted
    self_ty: Option<String>,
    self_name: String,
    stack: Vec<String>,
    loopn: Vec<usize>,          // loop counter per inline frame
    pmap: Vec<Vec<(String, String)>>, // contract param name -> actual name per frame
    ret_ty: Vec<Option<Type>>,
    mut_self: bool,
    vars: Vec<(String, Type)>,  // declared types of parameters and locals, as far as they are written down
    pub loops_used: usize,
    auto_inv: Option<String>,
    auto_hint: Option<String>,
    auto_post: Option<String>,
}

fn user_ty(t: &Type) -> Option<String> {
    match t { Type::Reference(r) => user_ty(&r.elem), Type::Paren(p) => user_ty(&p.elem), Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()), _ => None }
}

pub fn ty(k: &Krate, t: &Type) -> R<String> { ty_s(k, t, None) }
pub fn ty_s(k: &Krate, t: &Type, selft: Option<&str>) -> R<String> {
    Ok(match t {
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let mut n = s.ident.to_string();
            if n == "Self" { return Ok(selft.unwrap_or("Self").to_string()); }
            let user = k.type_names.contains(&n);
            if !user {
                n = match n.as_str() {
                    "Vec" => "PVec", "String" | "str" => "Str", "HashMap" | "BTreeMap" => "HMap", "HashSet" | "BTreeSet" => "HSet",
                    "UnorderedMap" | "LookupMap" | "TreeMap" => "UMap", "UnorderedSet" | "LookupSet" => "USet", "Vector" => "NVec",
                    "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "bool" | "Option" | "Result" | "AccountId" | "ValidAccountId" | "Balance" | "EpochHeight" | "BlockHeight"
                    | "Gas" | "StorageUsage" | "PublicKey" | "Duration" | "U256" | "U128" | "U64" | "Base58PublicKey" | "Base64VecU8" | "Promise" | "PromiseOrValue" | "PromiseResult" | "Str" | "PVec" | "char"
                    | "FungibleToken" | "LazyOption" | "FungibleTokenMetadata" | "StorageBalance" | "StorageBalanceBounds" | "Value" | "PromiseId" | "_" => &n,
                    _ => return unsup(format!("type {n}")),
                }.to_string();
            }
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                let mut v = vec![];
                for x in &a.args { match x { GenericArgument::Type(t) => v.push(ty_s(k, t, selft)?), GenericArgument::Lifetime(_) => {} _ => return unsup("generic arg") } }
                if !v.is_empty() { format!("{n}<{}>", v.join(", ")) } else { n }
            } else { n }
        }
        Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, ty_s(k, &r.elem, selft)?),
        Type::Slice(s) => format!("PVec<{}>", ty_s(k, &s.elem, selft)?),
        Type::Array(s) => format!("PVec<{}>", ty_s(k, &s.elem, selft)?),
        Type::Tuple(t) => { let mut v = vec![]; for x in &t.elems { v.push(ty_s(k, x, selft)?); } if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) } }
        Type::Paren(p) => ty_s(k, &p.elem, selft)?,
        Type::Infer(_) => "_".into(),
        Type::Never(_) => "!".into(),
        _ => return unsup(format!("type {}", t.to_token_stream())),
    })
}

fn const_eval(k: &Krate, e: &Expr, depth: usize) -> R<u128> {
    if depth > 20 { return unsup("const recursion"); }
    Ok(match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<u128>().map_err(|e| e.to_string())?,
        Expr::Paren(p) => const_eval(k, &p.expr, depth)?,
        Expr::Group(p) => const_eval(k, &p.expr, depth)?,
        Expr::Cast(c) => const_eval(k, &c.expr, depth)?,
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(e, None) => const_eval(k, e, depth)?, _ => return unsup("const") },
        Expr::Binary(b) => {
            let (x, y) = (const_eval(k, &b.left, depth)?, const_eval(k, &b.right, depth)?);
            match b.op {
                BinOp::Add(_) => x.checked_add(y), BinOp::Sub(_) => x.checked_sub(y), BinOp::Mul(_) => x.checked_mul(y), BinOp::Div(_) => x.checked_div(y),
                BinOp::Rem(_) => x.checked_rem(y), BinOp::Shl(_) => Some(x << y), BinOp::Shr(_) => Some(x >> y),
                _ => return unsup("const operator"),
            }.ok_or("const overflow")?
        }
        Expr::MethodCall(m) if m.method == "pow" => const_eval(k, &m.receiver, depth)?.pow(const_eval(k, &m.args[0], depth)? as u32),
        Expr::Path(p) => {
            let mut segs = path_segs(&p.path);
            if segs.len() == 3 && (segs[0] == "core" || segs[0] == "std") { segs.remove(0); }
            match segs.as_slice() {
                [t, m] if m == "MAX" || m == "MIN" => return Ok(if m == "MIN" { 0 } else { match t.as_str() { "u8" => u8::MAX as u128, "u16" => u16::MAX as u128, "u32" => u32::MAX as u128, "u64" | "Gas" | "EpochHeight" => u64::MAX as u128, "u128" | "Balance" => u128::MAX, _ => return unsup("const MAX") } }),
                _ => {}
            }
            let c = find_const(k, &segs).ok_or(format!("unsupported construct: unknown constant {}", segs.join("::")))?;
            const_eval(k, &c.expr, depth + 1)?
        }
        _ => return unsup(format!("constant expression {}", e.to_token_stream())),
    })
}

fn find_const<'a>(k: &'a Krate, segs: &[String]) -> Option<&'a ConstInfo> {
    let segs: Vec<&String> = segs.iter().filter(|s| !["crate", "self", "super"].contains(&s.as_str())).collect();
    let m: Vec<&ConstInfo> = k.consts.iter().filter(|c| c.path.len() >= segs.len() && c.path[c.path.len() - segs.len()..].iter().zip(&segs).all(|(a, b)| a == *b)).collect();
    if m.len() == 1 { return Some(m[0]); }
    m.into_iter().find(|c| c.path.len() == segs.len())
}

impl<'a> Em<'a> {
    fn fresh(&mut self, p: &str) -> String { self.uid += 1; format!("{p}__{}", self.uid) }
    fn t(&self, t: &Type) -> R<String> { ty_s(self.k, t, self.self_ty.as_deref()) }

    /// The type of an expression where it is written down in the crate: only used to tell a method of the crate from one of a library type.
    fn expr_ty(&self, e: &Expr) -> Option<Type> {
        let this = |t: &Type| -> Type { if t.to_token_stream().to_string() == "Self" { self.self_ty.as_ref().and_then(|n| parse_str(n).ok()).unwrap_or_else(|| t.clone()) } else { t.clone() } };
        let ret = |f: &FnInfo| -> Option<Type> { let t = f.ret.as_ref()?; if t.to_token_stream().to_string() == "Self" { parse_str(f.ty.as_ref()?).ok() } else { Some(t.clone()) } };
        Some(match e {
            Expr::Paren(x) => return self.expr_ty(&x.expr),
            Expr::Reference(x) => return self.expr_ty(&x.expr),
            Expr::Unary(x) => return self.expr_ty(&x.expr),
            Expr::Path(p) => { let n = p.path.get_ident()?.to_string(); if n == "self" { return parse_str(self.self_ty.as_ref()?).ok(); } let t = &self.vars.iter().rev().find(|v| v.0 == n)?.1; this(t) }
            Expr::Struct(s) => this(&Type::Path(TypePath { qself: None, path: s.path.clone() })),
            Expr::Field(f) => {
                let b = user_ty(&self.expr_ty(&f.base)?)?;
                let Member::Named(n) = &f.member else { return None };
                self.k.types.iter().find_map(|i| match i { Item::Struct(s) if s.ident == b => s.fields.iter().find(|x| x.ident.as_ref() == Some(n)).map(|x| x.ty.clone()), _ => None })?
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let v = path_segs(&p.path);
                let last = v.last()?;
                let q = if v.len() > 1 { v[v.len() - 2].clone() } else { String::new() };
                let q = if q == "Self" { self.self_ty.clone()? } else { q };
                ret(self.k.fns.get(last).filter(|_| v.len() == 1).or_else(|| self.k.fns.get(&format!("{q}::{last}")))?)?
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(t) = self.expr_ty(&m.receiver).as_ref().and_then(user_ty) { if let Some(f) = self.k.fns.get(&format!("{t}::{n}")) { return ret(f); } }
                if n == "clone" && m.args.is_empty() { return self.expr_ty(&m.receiver); }
                return None;
            }
            _ => return None,
        })
    }

    fn const_text(&self, c: &ConstInfo) -> R<String> {
        let tn = match &c.ty { Type::Reference(r) => match &*r.elem { Type::Slice(_) | Type::Array(_) => "bytes".to_string(), _ => "str".to_string() }, t => self.t(t)? };
        Ok(match tn.as_str() {
            "str" => match &c.expr { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => format!("(&rt::slit({:?}))", s.value()), _ => return unsup("const str") },
            "bytes" => match &c.expr { Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => format!("(&rt::blit({:?}))", String::from_utf8_lossy(&s.value())), Expr::Macro(m) if last_seg(&m.mac.path) == "include_bytes" => format!("(&{})", self.include(&m.mac)?), _ => return unsup("const bytes") },
            "bool" => c.expr.to_token_stream().to_string(),
            _ => {
                let v = const_eval(self.k, &c.expr, 0)?;
                let base = self.prim(&tn);
                format!("{v}{base}")
            }
        })
    }
    fn prim(&self, tn: &str) -> String {
        match tn {
            "Balance" => "u128", "EpochHeight" | "Gas" | "BlockHeight" | "StorageUsage" | "Duration" => "u64",
            t => {
                for i in &self.k.types { if let Item::Type(x) = i { if x.ident == t { return self.prim(&ty_name(&x.ty)); } } }
                return t.to_string();
            }
        }.to_string()
    }
    fn include(&self, m: &Macro) -> R<String> {
        let l: LitStr = parse2(m.tokens.clone()).map_err(|e| e.to_string())?;
        Ok(format!("rt::wasm({:?})", l.value()))
    }

    // ---------------------------------------------------------------- patterns
    fn pat(&mut self, p: &Pat) -> R<String> {
        Ok(match p {
            Pat::Ident(i) => {
                if i.subpat.is_some() { return unsup("@ pattern"); }
                if i.by_ref.is_none() && i.mutability.is_none() {
                    if let Some(c) = find_const(self.k, &[i.ident.to_string()]) { return self.const_text(c); }
                }
                format!("{}{}{}", if i.by_ref.is_some() { "ref " } else { "" }, if i.mutability.is_some() { "mut " } else { "" }, i.ident)
            }
            Pat::Wild(_) => "_".into(),
            Pat::Rest(_) => "..".into(),
            Pat::Lit(l) => match &l.lit { Lit::Int(_) | Lit::Bool(_) => l.to_token_stream().to_string(), _ => return unsup("literal pattern") },
            Pat::Tuple(t) => { let mut v = vec![]; for x in &t.elems { v.push(self.pat(x)?); } if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) } }
            Pat::TupleStruct(t) => { let mut v = vec![]; for x in &t.elems { v.push(self.pat(x)?); } format!("{}({})", self.ctor(&t.path)?, v.join(", ")) }
            Pat::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields { let m = f.member.to_token_stream().to_string(); if f.colon_token.is_some() { v.push(format!("{m}: {}", self.pat(&f.pat)?)); } else { v.push(self.pat(&f.pat)?); } }
                if s.rest.is_some() { v.push("..".into()); }
                format!("{} {{ {} }}", self.ctor(&s.path)?, v.join(", "))
            }
            Pat::Path(p) => self.ctor(&p.path)?,
            Pat::Or(o) => { let mut v = vec![]; for x in &o.cases { v.push(self.pat(x)?); } v.join(" | ") }
            Pat::Paren(p) => format!("({})", self.pat(&p.pat)?),
            Pat::Reference(r) => format!("&{}", self.pat(&r.pat)?),
            Pat::Type(t) => self.pat(&t.pat)?,
            _ => return unsup(format!("pattern {}", p.to_token_stream())),
        })
    }
    fn ctor(&mut self, p: &Path) -> R<String> {
        let segs = path_segs(p);
        let mut s: Vec<String> = segs.iter().filter(|x| !["crate", "self", "super", "near_sdk", "std"].contains(&x.as_str())).cloned().collect();
        if s.len() > 2 { s = s[s.len() - 2..].to_vec(); }
        if s[0] == "Self" { if let Some(t) = &self.self_ty { s[0] = t.clone(); } }
        // drop lower-case module prefixes
        if s.len() == 2 && s[0].chars().next().unwrap().is_lowercase() { s.remove(0); }
        Ok(s.join("::"))
    }

    // ---------------------------------------------------------------- blocks
    /// Emits a block as `{ ... }`.
    fn block(&mut self, b: &Block) -> R<String> { Ok(format!("{{\n{}}}", self.stmts(&b.stmts)?)) }

    fn stmts(&mut self, ss: &[Stmt]) -> R<String> {
        let mut o = String::new();
        for s in ss { o.push_str(&self.stmt(s)?); o.push('\n'); }
        Ok(o)
    }

    fn stmt(&mut self, s: &Stmt) -> R<String> {
        Ok(match s {
            Stmt::Local(l) => {
                let (p, t) = match &l.pat { Pat::Type(t) => (self.pat(&t.pat)?, Some(self.t(&t.ty)?)), p => (self.pat(p)?, None) };
                let tt = t.map(|t| format!(": {t}")).unwrap_or_default();
                match (&l.pat, &l.init) {
                    (Pat::Type(t), _) => if let Pat::Ident(i) = &*t.pat { self.vars.push((i.ident.to_string(), (*t.ty).clone())); },
                    (Pat::Ident(i), Some(e)) => if let Some(t) = self.expr_ty(&e.expr) { self.vars.push((i.ident.to_string(), t)); },
                    _ => {}
                }
                match &l.init {
                    None => format!("let {p}{tt};"),
                    Some(i) => {
                        if let Some((_, d)) = &i.diverge {
                            let e = self.expr(&i.expr)?;
                            let d = self.expr(d)?;
                            let vars = pat_vars(&l.pat);
                            let vs = vars.join(", ");
                            format!("let ({vs}) = match {e} {{ {p} => ({vs}), _ => {d} }};")
                        } else { format!("let {p}{tt} = {};", self.expr(&i.expr)?) }
                    }
                }
            }
            Stmt::Expr(e, semi) => {
                let t = self.expr(e)?;
                let blocky = matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
                if semi.is_some() || (blocky && false) { format!("{t};") } else { t }
            }
            Stmt::Macro(m) => { let t = self.mac(&m.mac)?; if m.semi_token.is_some() || !t.is_empty() && is_stmt_macro(&m.mac) { format!("{t};") } else { t } }
            Stmt::Item(Item::Use(_)) => String::new(),
            Stmt::Item(Item::Const(c)) => format!("let {}: {} = {};", c.ident, self.t(&c.ty)?, self.expr(&c.expr)?),
            Stmt::Item(_) => return unsup("local item"),
        })
    }

    /// Statement list as the value of a block in which `return e` yields the block's value.
    fn cps(&mut self, ss: &[Stmt]) -> R<String> {
        let Some(i) = ss.iter().position(has_ret_stmt) else { return self.stmts(ss) };
        let mut o = self.stmts(&ss[..i])?;
        let rest = &ss[i + 1..];
        let with = |b: &[Stmt]| -> Vec<Stmt> {
            let mut v: Vec<Stmt> = b.to_vec();
            if !rest.is_empty() {
                if let Some(Stmt::Expr(e, None)) = v.last().cloned() {
                    let n = v.len();
                    v[n - 1] = Stmt::Expr(e, Some(Default::default()));
                }
            }
            v.extend(rest.iter().cloned());
            v
        };
        match &ss[i] {
            Stmt::Expr(Expr::Return(r), _) => { o.push_str(&match &r.expr { Some(e) if has_ret_expr(e) => { let st = [Stmt::Expr((**e).clone(), None)]; self.cps(&st)? } Some(e) => self.expr(e)?, None => "()".into() }); }
            Stmt::Expr(Expr::If(e), semi) => {
                let tailval = rest.is_empty() && semi.is_none();
                let c = self.cond(&e.cond)?;
                let mut th = with(&e.then_branch.stmts);
                if !tailval && rest.is_empty() { th.push(unit_stmt()); }
                let t = self.cps(&th)?;
                let el = match &e.else_branch {
                    None => { let mut v = with(&[]); if v.is_empty() { v.push(unit_stmt()); } self.cps(&v)? }
                    Some((_, x)) => {
                        let body: Vec<Stmt> = match &**x { Expr::Block(b) => b.block.stmts.clone(), other => vec![Stmt::Expr(other.clone(), None)] };
                        let mut v = with(&body);
                        if !tailval && rest.is_empty() { v.push(unit_stmt()); }
                        self.cps(&v)?
                    }
                };
                o.push_str(&format!("if {c} {{\n{t}}} else {{\n{el}}}\n"));
            }
            Stmt::Expr(Expr::Match(m), _) => {
                if has_ret_expr(&m.expr) { return unsup("return inside match scrutinee"); }
                let sc = self.expr(&m.expr)?;
                o.push_str(&format!("match {sc} {{\n"));
                for a in &m.arms {
                    let p = self.pat(&a.pat)?;
                    let g = match &a.guard { Some((_, g)) => format!(" if {}", self.expr(g)?), None => String::new() };
                    let body: Vec<Stmt> = match &*a.body { Expr::Block(b) => b.block.stmts.clone(), other => vec![Stmt::Expr(other.clone(), None)] };
                    let v = with(&body);
                    o.push_str(&format!("{p}{g} => {{\n{}}}\n", self.cps(&v)?));
                }
                o.push_str("}\n");
            }
            Stmt::Expr(Expr::Block(b), _) => { let v = with(&b.block.stmts); o.push_str(&self.cps(&v)?); }
            Stmt::Local(l) if l.init.is_some() => {
                let init = l.init.as_ref().unwrap();
                if let Some((_, d)) = &init.diverge {
                    let p = self.pat(&l.pat)?;
                    let e = self.expr(&init.expr)?;
                    let r = self.cps(rest)?;
                    let st = [Stmt::Expr((**d).clone(), None)];
                    let dd = self.cps(&st)?;
                    o.push_str(&format!("match {e} {{ {p} => {{\n{r}}} _ => {{\n{dd}}} }}\n"));
                    return Ok(o);
                }
                let relet = |v: &[Stmt]| -> Vec<Stmt> {
                    let mut v = v.to_vec();
                    if let Some(Stmt::Expr(e, None)) = v.last().cloned() {
                        if !matches!(e, Expr::Return(_)) {
                            let mut nl = l.clone();
                            nl.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(e), diverge: None });
                            let n = v.len();
                            v[n - 1] = Stmt::Local(nl);
                        }
                    }
                    v.extend(rest.iter().cloned());
                    v
                };
                match &*init.expr {
                    Expr::Match(m) => {
                        let sc = self.expr(&m.expr)?;
                        o.push_str(&format!("match {sc} {{\n"));
                        for a in &m.arms {
                            let p = self.pat(&a.pat)?;
                            let g = match &a.guard { Some((_, g)) => format!(" if {}", self.expr(g)?), None => String::new() };
                            let body: Vec<Stmt> = match &*a.body { Expr::Block(b) => b.block.stmts.clone(), other => vec![Stmt::Expr(other.clone(), None)] };
                            let v = relet(&body);
                            o.push_str(&format!("{p}{g} => {{\n{}}}\n", self.cps(&v)?));
                        }
                        o.push_str("}\n");
                    }
                    Expr::If(e) => {
                        let c = self.cond(&e.cond)?;
                        let t = { let v = relet(&e.then_branch.stmts); self.cps(&v)? };
                        let el = match &e.else_branch {
                            None => return unsup("let = if without else"),
                            Some((_, x)) => { let body: Vec<Stmt> = match &**x { Expr::Block(b) => b.block.stmts.clone(), other => vec![Stmt::Expr(other.clone(), None)] }; let v = relet(&body); self.cps(&v)? }
                        };
                        o.push_str(&format!("if {c} {{\n{t}}} else {{\n{el}}}\n"));
                    }
                    Expr::Try(t) => {
                        let e = self.expr(&t.expr)?;
                        let p = self.pat(&l.pat)?;
                        let r = self.cps(rest)?;
                        o.push_str(&self.try_match(&e, &p, &r)?);
                    }
                    Expr::Block(b) => { let v = relet(&b.block.stmts); o.push_str(&self.cps(&v)?); }
                    _ => return unsup("early return in this position"),
                }
            }
            Stmt::Expr(Expr::Try(t), _) => {
                let e = self.expr(&t.expr)?;
                let r = self.cps(rest)?;
                let m = self.try_match(&e, "_", &r)?;
                o.push_str(&m);
            }
            Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _) => return unsup("return inside a loop of an inlined function"),
            _ => return unsup("early return in this position"),
        }
        Ok(o)
    }
    fn try_match(&mut self, e: &str, p: &str, rest: &str) -> R<String> {
        let rt = self.ret_ty.last().cloned().flatten();
        match rt.as_ref().map(ty_name).as_deref() {
            Some("Option") => Ok(format!("match {e} {{ Some({p}) => {{\n{rest}}} None => {{ None }} }}\n")),
            Some("Result") => Ok(format!("match {e} {{ Ok({p}) => {{\n{rest}}} Err(e__) => {{ Err(e__) }} }}\n")),
            _ => unsup("? operator"),
        }
    }

    // ---------------------------------------------------------------- expressions
    fn cond(&mut self, e: &Expr) -> R<String> {
        match e {
            Expr::Let(l) => { let p = self.pat(&l.pat)?; Ok(format!("let {p} = {}", self.expr(&l.expr)?)) }
            Expr::Binary(b) if matches!(b.op, BinOp::And(_)) && (matches!(&*b.left, Expr::Let(_)) || matches!(&*b.right, Expr::Let(_))) => unsup("let chain"),
            _ => self.expr(e),
        }
    }

    fn args(&mut self, a: &Punctuated<Expr, Token![,]>) -> R<Vec<String>> { let mut v = vec![]; for x in a { v.push(self.expr(x)?); } Ok(v) }

    pub fn expr(&mut self, e: &Expr) -> R<String> {
        Ok(match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => format!("(&rt::slit({:?}))", s.value()),
                Lit::ByteStr(s) => format!("(&rt::blit({:?}))", String::from_utf8(s.value()).map_err(|_| "unsupported construct: non-utf8 byte string".to_string())?),
                Lit::Int(_) | Lit::Bool(_) | Lit::Char(_) => l.to_token_stream().to_string(),
                Lit::Byte(b) => format!("{}u8", b.value()),
                _ => return unsup(format!("literal {}", l.to_token_stream())),
            },
            Expr::Path(p) => {
                let segs = path_segs(&p.path);
                if segs.len() == 1 && segs[0] == "self" { return Ok(self.self_name.clone()); }
                if segs.len() >= 2 && (segs[segs.len() - 1] == "MAX" || segs[segs.len() - 1] == "MIN") && find_const(self.k, &segs).is_none() {
                    let v = const_eval(self.k, e, 0)?; let b = self.prim(&segs[segs.len() - 2]); return Ok(format!("{v}{b}"));
                }
                let last = segs.last().unwrap();
                if last.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) || segs.len() > 1 {
                    let mut s2 = segs.clone();
                    if s2[0] == "Self" { if let Some(t) = &self.self_ty { s2[0] = t.clone(); } }
                    if let Some(c) = find_const(self.k, &s2) { return self.const_text(c); }
                }
                if segs.len() == 1 { segs[0].clone() } else { self.ctor(&p.path)? }
            }
            Expr::Paren(p) => format!("({})", self.expr(&p.expr)?),
            Expr::Group(p) => self.expr(&p.expr)?,
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr { if let Expr::Range(rg) = &*ix.index { if rg.start.is_none() && rg.end.is_none() { return Ok(format!("(&{})", self.expr(&ix.expr)?)); } } }
                format!("(&{}{})", if r.mutability.is_some() { "mut " } else { "" }, self.expr(&r.expr)?)
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => format!("(*{})", self.expr(&u.expr)?),
                UnOp::Not(_) => format!("(!{})", self.expr(&u.expr)?),
                _ => return unsup("unary minus"),
            },
            Expr::Binary(b) => self.binary(b)?,
            Expr::Assign(a) => { let r = self.expr(&a.right)?; if matches!(&*a.left, Expr::Infer(_)) { return Ok(format!("let _ = {r}")); } format!("{} = {r}", self.place(&a.left)?) }
            Expr::Field(f) => format!("{}.{}", self.expr(&f.base)?, f.member.to_token_stream()),
            Expr::Cast(c) if matches!(&*c.ty, Type::Infer(_)) => self.expr(&c.expr)?,
            Expr::Cast(c) => { let t = self.t(&c.ty)?; format!("({} as {t})", self.expr(&c.expr)?) }
            Expr::Block(b) if b.label.as_ref().map(|l| l.name.ident == "closure__").unwrap_or(false) => {
                self.ret_ty.push(None);
                let t = self.cps(&b.block.stmts);
                self.ret_ty.pop();
                format!("{{\n{}}}", t?)
            }
            Expr::Block(b) => { if b.label.is_some() { return unsup("labelled block"); } self.block(&b.block)? }
            Expr::Unsafe(u) => self.block(&u.block)?,
            Expr::If(i) => {
                let c = self.cond(&i.cond)?;
                let t = self.block(&i.then_branch)?;
                match &i.else_branch { None => format!("if {c} {t}"), Some((_, e)) => { let el = self.expr(e)?; let el = if matches!(&**e, Expr::If(_) | Expr::Block(_)) { el } else { format!("{{ {el} }}") }; format!("if {c} {t} else {el}") } }
            }
            Expr::Match(m) => {
                let sc = self.expr(&m.expr)?;
                let mut o = format!("match {sc} {{\n");
                for a in &m.arms {
                    let p = self.pat(&a.pat)?;
                    let g = match &a.guard { Some((_, g)) => format!(" if {}", self.expr(g)?), None => String::new() };
                    let b = self.expr(&a.body)?;
                    o.push_str(&format!("{p}{g} => {{ {b} }}\n"));
                }
                o.push('}');
                o
            }
            Expr::Struct(s) => {
                let n = self.ctor(&s.path)?;
                let mut v = vec![];
                for f in &s.fields { v.push(format!("{}: {}", f.member.to_token_stream(), self.expr(&f.expr)?)); }
                if let Some(r) = &s.rest { v.push(format!("..{}", self.expr(r)?)); }
                format!("{n} {{ {} }}", v.join(", "))
            }
            Expr::Tuple(t) => { let mut v = vec![]; for x in &t.elems { v.push(self.expr(x)?); } if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) } }
            Expr::Return(r) => {
                if self.stack.len() > 1 || self.cps_only() { return unsup("early return in this position"); }
                match &r.expr { Some(e) => format!("return {}", self.expr(e)?), None => "return".into() }
            }
            Expr::Try(t) => {
                if self.stack.len() > 1 || self.cps_only() { return unsup("? in this position"); }
                let e = self.expr(&t.expr)?;
                let rt = self.ret_ty.last().cloned().flatten();
                match rt.as_ref().map(ty_name).as_deref() {
                    Some("Option") => format!("(match {e} {{ Some(v__) => v__, None => {{ return None; }} }})"),
                    Some("Result") => format!("(match {e} {{ Ok(v__) => v__, Err(e__) => {{ return Err(e__); }} }})"),
                    _ => return unsup("? operator"),
                }
            }
            Expr::Macro(m) => self.mac(&m.mac)?,
            Expr::Call(c) => self.call(c)?,
            Expr::MethodCall(m) => self.method(m)?,
            Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) => {
                let Expr::Range(rg) = &*i.index else { unreachable!() };
                let b = self.expr(&i.expr)?;
                let lo = match &rg.start { Some(x) => format!("Some({})", self.expr(x)?), None => "None".into() };
                let hi = match &rg.end { Some(x) => { let x = self.expr(x)?; if matches!(rg.limits, RangeLimits::Closed(_)) { format!("Some(rt::add({x}, 1usize, w))") } else { format!("Some({x})") } } None => "None".into() };
                format!("(*({b}).slice({lo}, {hi}, w))")
            }
            Expr::Index(i) => {
                if let Expr::Range(rg) = &*i.index { if rg.start.is_none() && rg.end.is_none() { return self.expr(&i.expr); } return unsup("slice range"); }
                let b = self.expr(&i.expr)?; let x = self.expr(&i.index)?; format!("(*({b}).index({x}, w))")
            }
            Expr::ForLoop(f) => self.for_loop(f)?,
            Expr::While(f) => self.while_loop(f)?,
            Expr::Loop(f) => { if f.label.is_some() { return unsup("loop label"); } self.plain_loop(None, &f.body)? }
            Expr::Break(b) => { if b.expr.is_some() || b.label.is_some() { return unsup("break value"); } "break".into() }
            Expr::Continue(b) => { if b.label.is_some() { return unsup("continue label"); } "/*cont*/continue".into() }
            Expr::Range(r) => {
                let (Some(a), Some(b)) = (&r.start, &r.end) else { return unsup("open range") };
                let a = self.expr(a)?; let mut b = self.expr(b)?;
                if matches!(r.limits, RangeLimits::Closed(_)) { b = format!("rt::add({b}, 1, w)"); }
                format!("rt::range({a}, {b})")
            }
            Expr::Array(a) => {
                let n = self.fresh("arr");
                let mut o = format!("{{ let mut {n} = PVec::new(w); ");
                for x in &a.elems { let t = self.expr(x)?; o.push_str(&format!("{n}.push({t}, w); ")); }
                o.push_str(&format!("{n} }}"));
                o
            }
            Expr::Closure(_) => return unsup("closure in this position"),
            Expr::Let(_) => return unsup("let expression"),
            _ => return unsup(format!("expression {}", e.to_token_stream())),
        })
    }
    fn cps_only(&self) -> bool { self.stack.first().map(|s| s.starts_with("entry")).unwrap_or(false) }
    fn place(&mut self, e: &Expr) -> R<String> {
        Ok(match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => format!("*{}", self.expr(&u.expr)?),
            _ => self.expr(e)?,
        })
    }

    fn binary(&mut self, b: &ExprBinary) -> R<String> {
        use BinOp::*;
        let f = match b.op {
            Add(_) | AddAssign(_) => "add", Sub(_) | SubAssign(_) => "sub", Mul(_) | MulAssign(_) => "mul", Div(_) | DivAssign(_) => "div", Rem(_) | RemAssign(_) => "rem",
            Lt(_) => "lt", Le(_) => "le", Gt(_) => "gt", Ge(_) => "ge", Eq(_) => "eq", Ne(_) => "ne",
            And(_) => { let l = self.expr(&b.left)?; let r = self.expr(&b.right)?; return Ok(format!("({l} && {r})")); }
            Or(_) => { let l = self.expr(&b.left)?; let r = self.expr(&b.right)?; return Ok(format!("({l} || {r})")); }
            _ => return unsup(format!("operator {}", b.op.to_token_stream())),
        };
        if let Add(_) = b.op { if let Some(v) = str_sum(b) {
            let mut t = vec![];
            for x in v { t.push(match lit_str(x) { Some(s) => format!("rt::slit({s:?})"), None => { let e = self.expr(x)?; format!("({e}).pstr()") } }); }
            let mut it = t.into_iter();
            let mut acc = it.next().unwrap();
            for p in it { acc = format!("rt::cat({acc}, {p})"); }
            return Ok(acc);
        } }
        match b.op {
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) => {
                let r = self.expr(&b.right)?;
                let p = self.place(&b.left)?;
                // numbers are never added by reference here: a string grows
                if matches!(b.op, AddAssign(_)) && (lit_str(&b.right).is_some() || matches!(strip_paren(&b.right), Expr::Reference(_))) { return Ok(format!("({p}).push_str({r}, w)")); }
                // `x op= e` evaluates e first for primitive operands
                let n = self.fresh("rhs");
                Ok(format!("{{ let {n} = {r}; {p} = rt::{f}({p}, {n}, w); }}"))
            }
            Eq(_) | Ne(_) => {
                let neg = if f == "ne" { "!" } else { "" };
                if let Some(s) = lit_str(&b.right) { let l = self.expr(&b.left)?; return Ok(format!("({neg}rt::eq(&({l}).pstr(), &rt::slit({s:?})))")); }
                if let Some(s) = lit_str(&b.left) { let l = self.expr(&b.right)?; return Ok(format!("({neg}rt::eq(&({l}).pstr(), &rt::slit({s:?})))")); }
                let l = self.expr(&b.left)?; let r = self.expr(&b.right)?;
                Ok(format!("rt::{f}(&({l}), &({r}))"))
            }
            Lt(_) | Le(_) | Gt(_) | Ge(_) => { let l = self.expr(&b.left)?; let r = self.expr(&b.right)?; Ok(format!("rt::{f}({l}, {r})")) }
            _ => { let l = self.expr(&b.left)?; let r = self.expr(&b.right)?; Ok(format!("rt::{f}({l}, {r}, w)")) }
        }
    }

    // ---------------------------------------------------------------- macros
    fn mac(&mut self, m: &Macro) -> R<String> {
        let n = last_seg(&m.path);
        let parse = |t: proc_macro2::TokenStream| -> R<Vec<Expr>> {
            Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t).map(|p| p.into_iter().collect()).map_err(|e| format!("unsupported construct: macro {n}!: {e}"))
        };
        Ok(match n.as_str() {
            "assert" | "debug_assert" | "require" => { let a = parse(m.tokens.clone())?; let c = self.expr(&a[0])?; format!("if !({c}) {{ rt::panic_(w); }}") }
            "assert_eq" | "debug_assert_eq" => { let a = parse(m.tokens.clone())?; let (x, y) = (self.expr(&a[0])?, self.expr(&a[1])?); format!("if !rt::eq(&({x}), &({y})) {{ rt::panic_(w); }}") }
            "assert_ne" | "debug_assert_ne" => { let a = parse(m.tokens.clone())?; let (x, y) = (self.expr(&a[0])?, self.expr(&a[1])?); format!("if rt::eq(&({x}), &({y})) {{ rt::panic_(w); }}") }
            "panic" | "unreachable" | "unimplemented" | "todo" => "rt::panic_(w)".into(),
            "log" | "println" | "print" | "eprintln" => { let a = parse(m.tokens.clone())?; self.eval_args(&a)? }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                let p = |i: syn::parse::ParseStream| -> syn::Result<M> {
                    let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok(M(e, p, g))
                };
                let x = p.parse2(m.tokens.clone()).map_err(|e| e.to_string())?;
                let e = self.expr(&x.0)?; let p = self.pat(&x.1)?;
                let g = match x.2 { Some(g) => format!(" if {}", self.expr(&g)?), None => String::new() };
                format!("(match {e} {{ {p}{g} => true, _ => false }})")
            }
            "vec" if m.tokens.clone().into_iter().any(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ';')) => {
                struct V(Expr, Expr);
                let p = |i: syn::parse::ParseStream| -> syn::Result<V> { let e = i.parse()?; i.parse::<Token![;]>()?; Ok(V(e, i.parse()?)) };
                let x = p.parse2(m.tokens.clone()).map_err(|e| e.to_string())?;
                format!("rt::vec_rep({}, {})", self.expr(&x.0)?, self.expr(&x.1)?)
            }
            "vec" => {
                let a = parse(m.tokens.clone())?;
                let n = self.fresh("vec");
                let mut o = format!("{{ let mut {n} = PVec::new(w); ");
                for x in &a { let t = self.expr(x)?; o.push_str(&format!("{n}.push({t}, w); ")); }
                o.push_str(&format!("{n} }}"));
                o
            }
            "format" => { let a = parse(m.tokens.clone())?; self.format(&a)? }
            "include_bytes" => format!("(&{})", self.include(m)?),
            "json" => {
                let mut pre = String::new();
                let ts: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
                let j = self.json(&ts, &mut pre)?;
                format!("{{ {pre}rt::jval(Ghost({j})) }}")
            }
            _ => return unsup(format!("macro {n}!")),
        })
    }
    /// A `json!` literal: evaluates its Rust parts into `pre` and returns the JSON value as a spec expression.
    fn json(&mut self, ts: &[proc_macro2::TokenTree], pre: &mut String) -> R<String> {
        use proc_macro2::{Delimiter, TokenTree as T};
        fn split(ts: Vec<T>) -> Vec<Vec<T>> {
            let mut v = vec![vec![]];
            for t in ts { if matches!(&t, T::Punct(p) if p.as_char() == ',') { v.push(vec![]); } else { v.last_mut().unwrap().push(t); } }
            v.into_iter().filter(|x| !x.is_empty()).collect()
        }
        if ts.len() == 1 {
            match &ts[0] {
                T::Group(g) if g.delimiter() == Delimiter::Brace => {
                    let mut es = vec![];
                    for e in split(g.stream().into_iter().collect()) {
                        let key = match &e[0] { T::Literal(l) => l.to_string(), _ => return unsup("json! key") };
                        if !key.starts_with('"') || e.len() < 3 || !matches!(&e[1], T::Punct(p) if p.as_char() == ':') { return unsup("json! entry"); }
                        let v = self.json(&e[2..], pre)?;
                        es.push(format!("{key}@ => {v}"));
                    }
                    return Ok(if es.is_empty() { "JV::O(Map::empty())".into() } else { format!("JV::O(map![{}])", es.join(", ")) });
                }
                T::Group(g) if g.delimiter() == Delimiter::Bracket => {
                    let mut es = vec![];
                    for e in split(g.stream().into_iter().collect()) { es.push(self.json(&e, pre)?); }
                    return Ok(format!("JV::A(seq![{}])", es.join(", ")));
                }
                T::Ident(i) if i == "null" => return Ok("JV::Null".into()),
                _ => {}
            }
        }
        let e: Expr = syn::parse2(ts.iter().cloned().collect()).map_err(|e| format!("unsupported construct: json!: {e}"))?;
        if let Some(s) = lit_str(&e) { return Ok(format!("JV::S({s:?}@)")); }
        if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = &e { return Ok(format!("JV::N({})", i.base10_digits())); }
        if let Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) = &e { return Ok(format!("JV::B({})", b.value)); }
        let n = self.fresh("j");
        let t = self.expr(&e)?;
        pre.push_str(&format!("let {n} = &({t}); "));
        Ok(format!("({n}).js()"))
    }
    fn eval_args(&mut self, a: &[Expr]) -> R<String> {
        let mut o = String::from("{ ");
        for x in a {
            if matches!(x, Expr::Lit(_)) { continue; }
            let x = match x { Expr::Assign(a) => &*a.right, x => x };
            let t = self.expr(x)?;
            o.push_str(&format!("let _ = &({t}); "));
        }
        o.push('}');
        Ok(o)
    }
    fn format(&mut self, a: &[Expr]) -> R<String> {
        let Some(f) = a.first().and_then(lit_str) else { return unsup("format string") };
        let mut parts: Vec<String> = vec![];
        let mut lit = String::new();
        let mut idx = 1;
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' { lit.push('{'); i += 2; continue; }
            if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' { lit.push('}'); i += 2; continue; }
            if cs[i] == '{' {
                let j = (i..cs.len()).find(|j| cs[*j] == '}').ok_or("format")?;
                let inner: String = cs[i + 1..j].iter().collect();
                if !lit.is_empty() { parts.push(format!("rt::slit({lit:?})")); lit.clear(); }
                if inner.is_empty() {
                    let e = a.get(idx).ok_or("format args")?; idx += 1;
                    let t = self.expr(e)?; parts.push(format!("({t}).pstr()"));
                } else if inner.chars().all(|c| c.is_alphanumeric() || c == '_') {
                    let named = a.iter().find_map(|x| match x { Expr::Assign(s) if s.left.to_token_stream().to_string() == inner => Some((*s.right).clone()), _ => None });
                    let t = match named { Some(e) => self.expr(&e)?, None => inner };
                    parts.push(format!("({t}).pstr()"));
                } else { return unsup("format spec"); }
                i = j + 1; continue;
            }
            lit.push(cs[i]); i += 1;
        }
        if !lit.is_empty() || parts.is_empty() { parts.push(format!("rt::slit({lit:?})")); }
        let mut it = parts.into_iter();
        let mut acc = it.next().unwrap();
        for p in it { acc = format!("rt::cat({acc}, {p})"); }
        Ok(acc)
    }

    // ---------------------------------------------------------------- calls
    fn call(&mut self, c: &ExprCall) -> R<String> {
        let Expr::Path(p) = &*c.func else { return unsup("call of a non-path") };
        let segs = path_segs(&p.path);
        let last = segs.last().unwrap().clone();
        let q = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
        let qt = if q == "Self" { self.self_ty.clone().unwrap_or_default() } else { q.clone() };
        // env
        if q == "env" {
            match last.as_str() {
                "panic" | "panic_str" => return Ok("rt::panic_(w)".into()),
                "log" | "log_str" => { let a: Vec<Expr> = c.args.iter().map(strip_log).collect(); let mut v = vec![]; for x in a { flatten_log(&x, &mut v); } return self.eval_args(&v); }
                _ => { let a = self.args(&c.args)?; return Ok(format!("rt::env::{last}({}w)", join_c(&a))); }
            }
        }
        // raw host functions (arguments may carry `as _` casts)
        if q == "near_sys" {
            if last == "read_register" {
                let Some(buf) = sys_buffer(c) else { return unsup("read_register into something other than a local buffer") };
                let r = self.expr(&c.args[0])?;
                return Ok(format!("{{ {buf} = rt::sys::read_register({r}, {buf}, w); }}"));
            }
            let a = self.args(&c.args)?;
            return Ok(format!("rt::sys::{last}({}w)", join_c(&a)));
        }
        // external contract interfaces
        if let Some(t) = self.k.exts.get(&q).cloned() { return self.ext_call(&t, &last, &c.args); }
        match (qt.as_str(), last.as_str()) {
            ("mem", "take") => { let a = self.args(&c.args)?; return Ok(format!("rt::take({})", a.join(", "))); }
            ("mem", "replace") => { let a = self.args(&c.args)?; return Ok(format!("rt::replace({})", a.join(", "))); }
            ("cmp", "min" | "max") | ("", "min" | "max") if self.k.fns.get(&last).is_none() => { let a = self.args(&c.args)?; return Ok(format!("rt::{last}({})", a.join(", "))); }
            ("serde_json", "to_string") => { let a = self.args(&c.args)?; return Ok(format!("rt::to_json_string({}, w)", a.join(", "))); }
            ("serde_json", "to_vec" | "from_slice") => {
                let a = self.args(&c.args)?;
                let mut g = String::new();
                if last == "from_slice" { if let Some(PathArguments::AngleBracketed(x)) = p.path.segments.last().map(|s| &s.arguments) {
                    let mut v = vec![];
                    for x in &x.args { if let GenericArgument::Type(t) = x { v.push(ty_s(self.k, t, self.self_ty.as_deref())?); } }
                    if !v.is_empty() { g = format!("::<{}>", v.join(", ")); }
                } }
                return Ok(format!("rt::{last}{g}({}, w)", a.join(", ")));
            }
            ("hex", "encode") => { let a = self.args(&c.args)?; return Ok(format!("rt::hex_encode({})", a.join(", "))); }
            ("base64", "decode_config") => {
                let a = self.args(&c.args)?;
                let std = c.args.iter().nth(1).map(|x| matches!(x, Expr::Path(p) if last_seg(&p.path) == "STANDARD")).unwrap_or(false);
                return Ok(format!("rt::base64_decode{}({}({}))", if std { "" } else { "_other" }, if is_place(&c.args[0]) { "&" } else { "" }, a[0]));
            }
            ("base64", "decode") => { let a = self.args(&c.args)?; return Ok(format!("rt::base64_decode({}({}))", if is_place(&c.args[0]) { "&" } else { "" }, a[0])); }
            ("" | "mem", "drop") => { let a = self.args(&c.args)?; return Ok(format!("{{ let _ = {}; }}", a.join(", "))); }
            ("" | "near_sdk", "is_promise_success") if self.k.fns.get("is_promise_success").is_none() => return Ok("rt::env::is_promise_success(w)".into()),
            ("" | "near_sdk", "assert_self") if self.k.fns.get("assert_self").is_none() => return Ok("rt::env::assert_self(w)".into()),
            ("" | "near_sdk", "assert_one_yocto") if self.k.fns.get(&last).is_none() => return Ok("if !rt::eq(&rt::env::attached_deposit(w), &1u128) { rt::panic_(w); }".into()),
            (_, "from") if !qt.is_empty() => {
                if let Some(x) = self.user_from(&qt, &c.args)? { return Ok(x); }
                let a = self.args(&c.args)?;
                let t = self.map_ty_name(&qt)?;
                return Ok(format!("<{t} as PFrom<_>>::pfrom({})", a.join(", ")));
            }
            (_, "try_from") if !qt.is_empty() => { let a = self.args(&c.args)?; let t = self.map_ty_name(&qt)?; return Ok(format!("<{t} as PTryFrom<_>>::ptry_from({})", a.join(", "))); }
            ("Default", "default") => return Ok("PDefault::pdefault()".into()),
            (_, "default") if !qt.is_empty() => {
                if Some(&qt) == self.k.contract_ty.as_ref() { return unsup("contract default"); }
                let t = self.map_ty_name(&qt)?; return Ok(format!("<{t} as PDefault>::pdefault()"));
            }
            ("AccountId", "new_unchecked") => return self.expr(&c.args[0]),
            ("String", "new") => return Ok("<Str as PDefault>::pdefault()".into()),
            ("Vec", "from") | ("Rc", "new") | ("Box", "new") => return unsup(format!("{qt}::{last}")),
            _ => {}
        }
        // tuple struct / enum variant constructor
        if last.chars().next().unwrap().is_uppercase() {
            let a = self.args(&c.args)?;
            let n = if last == "Self" { self.self_ty.clone().unwrap_or_default() } else { self.ctor(&p.path)? };
            return Ok(format!("{n}({})", a.join(", ")));
        }
        // crate function
        let key = if qt.is_empty() || qt.chars().next().unwrap().is_lowercase() { last.clone() } else { format!("{qt}::{last}") };
        if let Some(f) = self.k.fns.get(&key).cloned() {
            let mut a: Vec<Expr> = c.args.iter().cloned().collect();
            let recv = if f.recv.is_some() { Some(a.remove(0)) } else { None };
            return self.crate_call(&f, recv, &a);
        }
        if !qt.is_empty() && qt.chars().next().unwrap().is_uppercase() {
            let a = self.args(&c.args)?;
            let t = self.map_ty_name(&qt)?;
            return Ok(format!("{t}::{last}({}w)", join_c(&a)));
        }
        unsup(format!("call of unknown function {}", segs.join("::")))
    }
    fn map_ty_name(&self, n: &str) -> R<String> { ty_s(self.k, &parse_str::<Type>(n).map_err(|e| e.to_string())?, self.self_ty.as_deref()) }

    fn user_from(&mut self, t: &str, args: &Punctuated<Expr, Token![,]>) -> R<Option<String>> {
        let c: Vec<FnInfo> = self.k.froms.iter().filter(|f| f.0 == t).map(|f| f.2.clone()).collect();
        if c.is_empty() { return Ok(None); }
        if c.len() > 1 { return unsup("ambiguous From"); }
        let a: Vec<Expr> = args.iter().cloned().collect();
        Ok(Some(self.inline(&c[0], None, &a)?))
    }

    fn crate_call(&mut self, f: &FnInfo, recv: Option<Expr>, args: &[Expr]) -> R<String> {
        if self.contracted.contains(&f.key) {
            let mut v = vec![];
            for a in args { v.push(self.expr(a)?); }
            return Ok(match &recv {
                Some(r) => { let r = self.expr(r)?; format!("{r}.{}({}w)", f.name, join_c(&v)) }
                None => match &f.ty { Some(t) => format!("{t}::{}({}w)", f.name, join_c(&v)), None => format!("{}({}w)", f.name, join_c(&v)) },
            });
        }
        self.inline(f, recv, args)
    }

    fn know_params(&mut self, f: &FnInfo) {
        for p in &f.params { if let Pat::Ident(i) = &p.pat { self.vars.push((i.ident.to_string(), p.ty.clone())); } }
    }

    fn inline(&mut self, f: &FnInfo, recv: Option<Expr>, args: &[Expr]) -> R<String> {
        if self.stack.contains(&f.key) { return unsup(format!("recursive function {}", f.key)); }
        if self.stack.len() > 24 { return unsup("inline depth"); }
        let mut o = String::from("{\n");
        // receiver
        let mut sname = self.self_name.clone();
        let mut new_self = None;
        if let (Some(r), Some((is_ref, is_mut))) = (&recv, f.recv) {
            let is_self = matches!(r, Expr::Path(p) if p.path.is_ident("self"));
            if is_self && is_ref { sname = self.self_name.clone(); }
            else {
                let t = self.expr(r)?;
                let n = self.fresh("self");
                if is_ref { o.push_str(&format!("let {n} = {}({t});\n", if is_mut { "&mut " } else { "&" })); } else { o.push_str(&format!("let {}{n} = {t};\n", if f.recv_mut_bind { "mut " } else { "" })); }
                new_self = Some(n.clone());
                sname = n;
            }
        }
        let mut tmp = vec![];
        if args.len() != f.params.len() { return unsup(format!("argument count for {}", f.key)); }
        let subst_ty = f.ty.clone();
        let nvars = self.vars.len();
        for (a, p) in args.iter().zip(&f.params) {
            let t = self.expr(a)?;
            let n = self.fresh("a");
            // `&str` values inside data are represented by owned strings
            let t = if matches!(&*p.ty.to_token_stream().to_string(), "& str") && is_place(a) { format!("({t}).as_str(w)") } else { t };
            let tt = if f.generics || contains_impl(&p.ty) { String::new() } else { format!(": {}", ty_s(self.k, &p.ty, subst_ty.as_deref())?) };
            o.push_str(&format!("let {n}{tt} = {t};\n"));
            tmp.push(n);
        }
        let saved = (self.self_name.clone(), self.self_ty.clone());
        self.self_name = sname;
        if f.ty.is_some() { self.self_ty = f.ty.clone(); }
        self.stack.push(f.key.clone());
        self.loopn.push(0);
        self.ret_ty.push(f.ret.clone());
        let mut pm = vec![];
        let cp = self.con.fns.get(&f.key).or(self.con.loops_only.get(&f.key)).map(|c| c.params.clone()).unwrap_or_default();
        let looped = self.con.fns.get(&f.key).map_or(false, |c| !c.loops.is_empty()) || self.con.loops_only.contains_key(&f.key);
        for (i, p) in f.params.iter().enumerate() {
            let pt = self.pat(&p.pat)?;
            o.push_str(&format!("let {pt} = {};\n", tmp[i]));
            if let (Some(c), Pat::Ident(id)) = (cp.get(i), &p.pat) {
                if is_ref(p) || !looped { pm.push((c.clone(), id.ident.to_string())); }
                else { let g = self.fresh("g"); o.push_str(&format!("let ghost {g} = {};\n", id.ident)); pm.push((c.clone(), g)); }
            }
        }
        // loop annotations speak of the state and the world at the function's start
        if looped {
            let g = self.fresh("w0");
            o.push_str(&format!("let ghost {g} = w@;\n"));
            pm.push(("W0".into(), g));
            if let Some((r, _)) = f.recv {
                let g = self.fresh("s0");
                o.push_str(&format!("let ghost {g} = {}{};\n", if r { "*" } else { "" }, self.self_name));
                pm.push(("S0".into(), g));
            }
        }
        pm.push(("self".into(), self.self_name.clone()));
        self.pmap.push(pm);
        self.know_params(f);
        let body = self.cps(&f.block.stmts);
        self.vars.truncate(nvars);
        self.pmap.pop();
        self.stack.pop();
        self.loopn.pop();
        self.ret_ty.pop();
        self.self_name = saved.0;
        self.self_ty = saved.1;
        let _ = new_self;
        let rt = match &f.ret { Some(t) if !f.generics => ty_s(self.k, t, subst_ty.as_deref())?, _ => String::new() };
        if rt.is_empty() { o.push_str(&body?); o.push('}'); Ok(o) }
        else { let n = self.fresh("r"); o.push_str(&format!("let {n}: {rt} = {{\n{}}};\n{n}\n}}", body?)); Ok(o) }
    }

    fn ext_call(&mut self, t: &ExtTrait, m: &str, args: &Punctuated<Expr, Token![,]>) -> R<String> {
        let ps = t.methods.get(m).ok_or(format!("unsupported construct: {}::{m}", t.module))?.clone();
        if args.len() != ps.len() + 3 { return unsup(format!("argument count of {}::{m}", t.module)); }
        let mut o = String::from("{\n");
        let mut js = vec![];
        for (i, (n, ty)) in ps.iter().enumerate() {
            let v = self.fresh("x");
            let tt = self.t(ty)?;
            let e = self.expr(&args[i])?;
            o.push_str(&format!("let {v}: {tt} = {e};\n"));
            let n = n.trim_end_matches("_u");
            js.push(format!("\"{n}\"@ => ({v}).js()"));
        }
        let r = self.expr(&args[ps.len()])?;
        let rn = self.fresh("x");
        o.push_str(&format!("let {rn} = {r};\n"));
        let d = self.expr(&args[ps.len() + 1])?;
        let g = self.expr(&args[ps.len() + 2])?;
        let rref = if self.sdk4() { format!("&{rn}") } else { rn };
        let args = if js.is_empty() { "Seq::empty()".to_string() } else { format!("json_bytes(JV::O(map![{}]))", js.join(", ")) };
        o.push_str(&format!("rt::ext_call({rref}, \"{m}\", Ghost({args}), {d}, {g}, w)\n}}"));
        Ok(o)
    }
    fn sdk4(&self) -> bool { self.k.sdk.starts_with('4') }

    fn closure1(&mut self, e: &Expr) -> R<(Vec<Pat>, Expr)> {
        match e {
            Expr::Closure(c) if matches!(&*c.body, Expr::Block(b) if b.label.is_none() && has_ret_block(&b.block)) => {
                // `return` leaves the closure: marked, so that the body's statements are taken as a function's
                let Expr::Block(b) = &*c.body else { unreachable!() };
                let mut b = b.clone();
                b.label = Some(Label { name: Lifetime::new("'closure__", proc_macro2::Span::call_site()), colon_token: Default::default() });
                let mut d = c.clone();
                d.body = Box::new(Expr::Block(b));
                self.closure1(&Expr::Closure(d))
            }
            Expr::Closure(c) => Ok((c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect(), (*c.body).clone())),
            Expr::Path(p) => {
                // path used as a function value: |x| path(x)
                let id = Ident::new("x__", proc_macro2::Span::call_site());
                let pat: Pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id.clone(), subpat: None });
                let call: Expr = parse_quote_call(p, &id)?;
                Ok((vec![pat], call))
            }
            _ => unsup("function value"),
        }
    }

    fn method(&mut self, m: &ExprMethodCall) -> R<String> {
        let n = m.method.to_string();
        if let (Some((eq, ch)), Expr::MethodCall(r)) = (m.args.first().and_then(char_test), strip_paren(&m.receiver)) {
            let (c, r0) = (r.method.to_string(), &r.receiver);
            if (c == "chars" || c == "bytes") && (n == "any" || n == "all") {
                let t = self.expr(r0)?;
                // any(==c): contains; all(!=c): does not contain
                if (n == "any") == eq { return Ok(format!("({}({t}).contains({ch}, w))", if eq { "" } else { "!" })); }
            }
        }
        // an ASCII byte of a string is that character
        if n == "contains" && m.args.len() == 1 {
            if let (Expr::MethodCall(x), Expr::Lit(ExprLit { lit: Lit::Byte(b), .. })) = (strip_paren(&m.receiver), strip_ref(&m.args[0])) { if x.method == "as_bytes" && b.value() < 128 { let t = self.expr(&x.receiver)?; return Ok(format!("({t}).contains({:?}, w)", b.value() as char)); } }
        }
        // the joined elements of a list written out
        if (n == "join" && m.args.len() == 1 && lit_str(&m.args[0]).is_some()) || (n == "concat" && m.args.is_empty()) {
            let list: Option<Vec<Expr>> = match strip_ref(&m.receiver) { Expr::Array(a) => Some(a.elems.iter().cloned().collect()), Expr::Macro(v) if last_seg(&v.mac.path) == "vec" => v.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect()), _ => None };
            if let Some(v) = list { if !v.is_empty() {
                let mut acc = String::new();
                for (i, x) in v.iter().enumerate() {
                    let t = match lit_str(x) { Some(s) => format!("rt::slit({s:?})"), None => { let e = self.expr(x)?; format!("({e}).pstr()") } };
                    if i == 0 { acc = t; continue; }
                    if let Some(sep) = m.args.first().and_then(lit_str) { if !sep.is_empty() { acc = format!("rt::cat({acc}, rt::slit({sep:?}))"); } }
                    acc = format!("rt::cat({acc}, {t})");
                }
                return Ok(acc);
            } }
        }
        if let Some((true, ch)) = m.args.first().and_then(char_test) { if (n == "contains" || n == "find") && m.args.len() == 1 { let t = self.expr(&m.receiver)?; return Ok(format!("({t}).{n}({ch}, w)")); } }
        if let Some(x) = self.iter_chain(m)? { return Ok(x); }
        // crate methods
        let keys = self.k.by_name.get(&n).cloned().unwrap_or_default();
        let keys: Vec<String> = keys.into_iter().filter(|x| self.k.fns[x].recv.is_some() && self.k.fns[x].in_trait_impl.as_deref() != Some("ToString")).collect();
        if !keys.is_empty() {
            let self_recv = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
            let typed = if self_recv { None } else { self.expr_ty(&m.receiver).as_ref().and_then(user_ty).map(|t| format!("{t}::{n}")).filter(|x| keys.contains(x)) };
            let pick = if typed.is_some() { typed } else if self_recv { self.self_ty.as_ref().map(|t| format!("{t}::{n}")).filter(|x| keys.contains(x)) } else {
                let arity: Vec<&String> = keys.iter().filter(|x| self.k.fns[*x].params.len() == m.args.len()).collect();
                // do not confuse with builder / collection methods of the same name
                let is_contract = |x: &String| self.k.fns[x].ty == self.k.contract_ty;
                let local = matches!(&*m.receiver, Expr::Path(p) if p.path.segments.len() == 1);
                let mut c: Vec<&String> = arity.iter().cloned().filter(|x| !is_contract(x)).collect();
                if c.is_empty() && local { c = arity; }
                if c.len() == 1 && !is_shim_method(&n) { Some(c[0].clone()) } else if c.len() > 1 { return unsup(format!("ambiguous method {n}")); } else { None }
            };
            if let Some(x) = pick { let f = self.k.fns[&x].clone(); let a: Vec<Expr> = m.args.iter().cloned().collect(); return self.crate_call(&f, Some((*m.receiver).clone()), &a); }
        }
        let r = &m.receiver;
        macro_rules! rx { () => { self.expr(r)? } }
        Ok(match (n.as_str(), m.args.len()) {
            ("unwrap", 0) | ("expect", 1) => { let r = rx!(); format!("({r}).punwrap(w)") }
            ("unwrap_or", 1) => { let r = rx!(); let a = self.expr(&m.args[0])?; format!("({r}).punwrap_or({a})") }
            ("unwrap_or_default", 0) => { let r = rx!(); format!("({r}).punwrap_or_default()") }
            ("unwrap_or_else", 1) => {
                let r = rx!();
                if let Expr::Path(_) = &m.args[0] { let t = m.args[0].to_token_stream().to_string().replace(' ', ""); if t.ends_with("::default") || t.ends_with("::new") { return Ok(format!("({r}).punwrap_or_default()")); } }
                let (p, b) = self.closure1(&m.args[0])?;
                if !p.is_empty() { let pp = self.pat(&p[0])?; let b = self.expr(&b)?; return Ok(format!("(match {r} {{ Ok(v__) => v__, Err({pp}) => {{ {b} }} }})")); }
                let b = self.expr(&b)?;
                format!("(match {r} {{ Some(v__) => v__, None => {{ {b} }} }})")
            }
            ("expect_or", _) => return unsup("expect_or"),
            ("map", 1) => { let r = rx!(); let (p, b) = self.closure1(&m.args[0])?; let p = self.pat(&p[0])?; let b = self.expr(&b)?; format!("(match {r} {{ Some({p}) => Some({{ {b} }}), None => None }})") }
            ("and_then", 1) => { let r = rx!(); let (p, b) = self.closure1(&m.args[0])?; let p = self.pat(&p[0])?; let b = self.expr(&b)?; format!("(match {r} {{ Some({p}) => {{ {b} }}, None => None }})") }
            ("map_or", 2) => { let r = rx!(); let d = self.expr(&m.args[0])?; let (p, b) = self.closure1(&m.args[1])?; let p = self.pat(&p[0])?; let b = self.expr(&b)?; format!("{{ let d__ = {d}; match {r} {{ Some({p}) => {{ {b} }}, None => d__ }} }}") }
            ("map_or_else", 2) => { let r = rx!(); let (_, d) = self.closure1(&m.args[0])?; let d = self.expr(&d)?; let (p, b) = self.closure1(&m.args[1])?; let p = self.pat(&p[0])?; let b = self.expr(&b)?; format!("(match {r} {{ Some({p}) => {{ {b} }}, None => {{ {d} }} }})") }
            ("is_some_and", 1) => { let r = rx!(); let (p, b) = self.closure1(&m.args[0])?; let p = self.pat(&p[0])?; let b = self.expr(&b)?; format!("(match {r} {{ Some({p}) => {{ {b} }}, None => false }})") }
            ("or_else", 1) => { let r = rx!(); let (_, b) = self.closure1(&m.args[0])?; let b = self.expr(&b)?; format!("(match {r} {{ Some(v__) => Some(v__), None => {{ {b} }} }})") }
            ("or", 1) => { let r = rx!(); let b = self.expr(&m.args[0])?; format!("{{ let d__ = {b}; match {r} {{ Some(v__) => Some(v__), None => d__ }} }}") }
            ("ok_or", 1) => { let r = rx!(); let b = self.expr(&m.args[0])?; format!("{{ let d__ = {b}; match {r} {{ Some(v__) => Ok(v__), None => Err(d__) }} }}") }
            ("ok_or_else", 1) => { let r = rx!(); let (_, b) = self.closure1(&m.args[0])?; let b = self.expr(&b)?; format!("(match {r} {{ Some(v__) => Ok(v__), None => Err({{ {b} }}) }})") }
            ("then_some", 1) => { let r = rx!(); let b = self.expr(&m.args[0])?; format!("{{ let c__ = {r}; let v__ = {b}; if c__ {{ Some(v__) }} else {{ None }} }}") }
            ("replace", 1) if is_place(&m.receiver) => { let r = rx!(); let b = self.expr(&m.args[0])?; format!("rt::replace(&mut {r}, Some({b}))") }
            ("ok", 0) => { let r = rx!(); format!("(match {r} {{ Ok(v__) => Some(v__), Err(_) => None }})") }
            ("filter", 1) => { let r = rx!(); let (p, b) = self.closure1(&m.args[0])?; let p = self.pat(&p[0])?; let b = self.expr(&b)?; format!("(match {r} {{ Some(v__) => {{ let k__ = {{ let {p} = &v__; {b} }}; if k__ {{ Some(v__) }} else {{ None }} }}, None => None }})") }
            ("clone" | "to_owned", 0) => { let r = rx!(); format!("({r}).pclone()") }
            ("cloned" | "copied", 0) => { let r = rx!(); format!("({r}).pcloned()") }
            ("into", 0) => { let r = rx!(); format!("({r}).pinto()") }
            ("try_into", 0) => { let r = rx!(); format!("({r}).ptry_into()") }
            ("to_string", 0) => { let r = rx!(); format!("({r}).pstr()") }
            ("is_some" | "is_none" | "is_ok" | "is_err" | "as_ref" | "as_mut" | "take", 0) => { let r = rx!(); format!("({r}).{n}()") }
            ("checked_sub" | "checked_add" | "checked_mul" | "checked_div" | "saturating_sub" | "saturating_add" | "wrapping_sub" | "wrapping_add" | "min" | "max", 1) => { let r = rx!(); let a = self.expr(&m.args[0])?; format!("rt::{n}({r}, {a})") }
            ("pow", 1) => { let r = rx!(); let a = self.expr(&m.args[0])?; format!("rt::pow({r}, {a}, w)") }
            ("eq", 1) => { let r = rx!(); let a = self.expr(&m.args[0])?; format!("rt::eq(&({r}), {a})") }
            ("ne", 1) => { let r = rx!(); let a = self.expr(&m.args[0])?; format!("rt::ne(&({r}), {a})") }
            ("then", 1) if matches!(&m.args[0], Expr::Closure(_)) => { let r = rx!(); let (_, b) = self.closure1(&m.args[0])?; let b = self.expr(&b)?; format!("if {r} {{ Some({b}) }} else {{ None }}") }
            _ => {
                let a = self.args(&m.args)?; let r = rx!();
                // evaluate the receiver first when both have effects: receivers of builder calls nest on the left
                format!("({r}).{n}({}w)", join_c(&a))
            }
        })
    }

    // ---------------------------------------------------------------- loops and iterator chains
    fn loopc(&mut self) -> (LoopC, Vec<(String, String)>, String, usize) {
        let key = self.stack.last().cloned().unwrap_or_default();
        let key = key.trim_start_matches("entry ").to_string();
        let i = *self.loopn.last().unwrap();
        *self.loopn.last_mut().unwrap() += 1;
        self.loops_used += 1;
        let ann = |key: &str, i: usize| -> Option<LoopC> {
            if self.cfg.weak.contains(key) { return None; }
            self.con.fns.get(key).and_then(|f| f.loops.get(&i)).or_else(|| self.con.loops_only.get(key).and_then(|f| f.loops.get(&i))).cloned()
        };
        let mut pm = self.pmap.last().cloned().unwrap_or_default();
        let mut c = ann(&key, i);
        let known = |k: &str| self.con.fns.get(k).map(|f| !f.loops.is_empty()).unwrap_or(false) || self.con.loops_only.contains_key(k);
        if c.is_none() && !known(&key) {
            // a loop moved into a helper: the annotations of the function that calls the helper
            for j in (0..self.stack.len() - 1).rev() {
                let kj = self.stack[j].trim_start_matches("entry ").to_string();
                if !known(&kj) { continue; }
                let ij = self.loopn[j];
                c = ann(&kj, ij);
                if c.is_some() { self.loopn[j] += 1; let mut m = self.pmap[j].clone(); m.retain(|x| x.0 != "self"); m.extend(pm.iter().filter(|x| x.0 == "self").cloned()); pm = m; }
                break;
            }
        }
        let fits = c.is_some();
        (c.unwrap_or_default(), pm, if fits { String::new() } else { key }, i)
    }

    fn loop_text(&mut self, it: &str, pre: &str, head: &str, body: &str, mutvars: &[String], out: Option<&str>) -> String { self.loop_text_at(it, pre, head, body, mutvars, out, None, false) }
    /// `at`: the vector whose elements an index loop visits; `counted`: `it` is that loop's own counter rather than an iterator.
    fn loop_text_at(&mut self, it: &str, pre: &str, head: &str, body: &str, mutvars: &[String], out: Option<&str>, at: Option<&str>, counted: bool) -> String {
        let (c, pm, wkey, _i) = self.loopc();
        let key = self.stack.last().cloned().unwrap_or_default();
        let n = self.fresh("L");
        let mut map = pm.clone();
        map.push(("IT".into(), if at.is_some() { format!("at_{n}") } else { format!("{it}.items@") }));
        map.push(("POS".into(), if counted { format!("({it} as int)") } else { format!("{it}.pos@") }));
        map.push(("LS".into(), format!("ls_{n}")));
        map.push(("LW".into(), format!("lw_{n}")));
        map.push(("W".into(), "w@".into()));
        for (i, v) in mutvars.iter().enumerate() { map.push((format!("MUT{i}"), v.clone())); map.push((format!("LMUT{i}"), format!("lm_{n}_{i}"))); }
        map.push(("BS".into(), format!("bs_{n}")));
        map.push(("BW".into(), format!("bw_{n}")));
        for (i, _) in mutvars.iter().enumerate() { map.push((format!("BMUT{i}"), format!("bm_{n}_{i}"))); }
        if let Some(o) = out { map.push(("OUT".into(), format!("{o}.s@"))); map.push(("BOUT".into(), format!("bo_{n}"))); }
        else if mutvars.len() == 1 { map.push(("OUT".into(), format!("{}.s@", mutvars[0]))); map.push(("BOUT".into(), format!("bm_{n}_0.s@"))); }
        // the annotations' own bound variables keep clear of the locals put into them
        for v in mutvars.iter().map(|x| x.as_str()).chain(at.iter().copied()).chain([it]) { if v.chars().all(|c| c.is_alphanumeric() || c == '_') && v != "self" && !map.iter().any(|m| m.0 == v) { map.push((v.to_string(), format!("{v}__b"))); } }
        // INS: the collection the body puts things into, a field or a local put in its place
        if let Some(d) = &c.ins {
            let mut places: BTreeSet<String> = BTreeSet::new();
            for (i, _) in body.match_indices(".insert(") {
                let h = body[..i].trim_end_matches(')');
                let j = h.rfind(|c: char| !c.is_alphanumeric() && c != '_' && c != '.').map_or(0, |j| j + 1);
                if !h[j..].is_empty() { places.insert(h[j..].to_string()); }
            }
            let d = subst(d, &map);
            let x = if places.len() == 1 { places.pop_first().unwrap() } else { d };
            map.push(("INS".into(), x)); map.push(("BINS".into(), format!("bi_{n}")));
        }
        let want = |c: &Clause, cfg: &Cfg| c.tags.is_empty() || cfg.props.is_empty() || c.tags.iter().any(|t| cfg.props.contains(t));
        let mut o = String::from("{\n");
        match &c.out { Some(t) => o.push_str(&pre.replace("= PVec::new(w);", &format!(": {t} = PVec::new(w);"))), None => o.push_str(pre) }
        if self.self_ty.is_some() && self.self_name != "NONE" { o.push_str(&format!("let ghost ls_{n} = *{};\n", self.self_name)); }
        o.push_str(&format!("let ghost lw_{n} = w@;\n"));
        if !counted { o.push_str(&format!("let ghost li_{n} = {it}.items@;\n")); }
        if let Some(x) = at { o.push_str(&format!("let ghost at_{n} = {x}.s@;\n")); }
        for (i, v) in mutvars.iter().enumerate() { o.push_str(&format!("let ghost lm_{n}_{i} = {v};\n")); }
        for h in &c.pre { if want(h, self.cfg) { o.push_str(&format!("proof {{ {} }}\n", subst(&h.text, &map))); } }
        let mut bsnap = format!("let ghost bw_{n} = w@;\n");
        if self.self_ty.is_some() && self.self_name != "NONE" { bsnap.push_str(&format!("let ghost bs_{n} = *{};\n", self.self_name)); }
        for (i, v) in mutvars.iter().enumerate() { bsnap.push_str(&format!("let ghost bm_{n}_{i} = {v};\n")); }
        if let Some(x) = out { bsnap.push_str(&format!("let ghost bo_{n} = {x}.s@;\n")); }
        if let Some(x) = map.iter().find(|m| m.0 == "INS") { bsnap.push_str(&format!("let ghost bi_{n} = {}.m@;\n", x.1)); }
        let auto = self.auto_inv.is_some();
        if (!wkey.is_empty() && !auto) || (body.contains("break;") && !c.brk) { o.push_str(&format!("//@weak {key}\n")); }
        o.push_str(&format!("//@loop {key}\n{head}\n  invariant\n    w@.c == lw_{n}.c,\n"));
        if !counted { o.push_str(&format!("    0 <= {it}.pos@ <= {it}.items@.len(), {it}.items@ == li_{n},\n")); }
        if let Some(x) = at {
            let mut a = |kind: &str, t: String| { let id = format!("{key}|{n}|{kind}").replace(' ', "_"); if !self.cfg.noauto.contains(&id) { o.push_str(&format!("    {t}, //@auto {id}\n")); } };
            a("at", format!("{x}.s@ == at_{n}"));
            if counted { a("cnt", format!("0 <= {it} <= at_{n}.len()")); }
        }
        if !wkey.is_empty() && !auto { o.push_str(&self.guesses(&n)); }
        let (ai, ah, ap) = (self.auto_inv.take(), self.auto_hint.take(), self.auto_post.take());
        if let Some(x) = ai { o.push_str(&format!("    {x},\n")); }
        for v in &c.inv { if want(v, self.cfg) { o.push_str(&format!("    {},\n", subst(&v.text, &map))); } }
        // invariants kept only if they hold: ACC stands for each local the body adds to
        for (i, v) in c.tries.iter().enumerate() { if want(v, self.cfg) {
            let t = subst(&v.text, &map);
            let accs: Vec<String> = if subst(&t, &[("ACC".into(), "?".into())]) != t { mutvars.iter().filter(|x| body.contains(&format!("{x} = rt::add("))).cloned().collect() } else { vec![String::new()] };
            for a in accs {
                let id = format!("{key}|{n}|try{i}{a}").replace(' ', "_");
                if !self.cfg.noauto.contains(&id) { o.push_str(&format!("    {}, //@auto {id}\n", subst(&t, &[("ACC".into(), a.clone())]))); }
            }
        } }
        // the hints at the end of the body hold at each `continue` as well
        let mut hints = String::new();
        if let Some(x) = ah { hints.push_str(&format!("proof {{ {x} }}\n")); }
        for h in &c.hint { if want(h, self.cfg) { hints.push_str(&format!("\nproof {{ {} }}\n", subst(&h.text, &map))); } }
        let body = body.replace("/*cont*/continue", &if hints.is_empty() { "continue".to_string() } else { format!("{{ {hints} continue }}") });
        o.push_str(&format!("  decreases {}\n{{\n{bsnap}{body}", c.dec.as_ref().map(|d| subst(d, &map)).unwrap_or(if counted { format!("at_{n}.len() - {it}") } else { format!("{it}.items@.len() - {it}.pos@") })));
        o.push_str(&hints);
        o.push_str("}\n//@endloop\n");
        if let Some(x) = ap { o.push_str(&format!("proof {{ {x} }}\n")); }
        for h in &c.post { if want(h, self.cfg) { o.push_str(&format!("proof {{ {} }}\n", subst(&h.text, &map))); } }
        o
    }

    fn iter_expr(&mut self, e: &Expr) -> R<String> {
        let e = strip_paren(e);
        Ok(match e {
            Expr::Range(_) => self.expr(e)?,
            Expr::Reference(r) => { if r.mutability.is_some() { return unsup("mutable iteration"); } let t = self.expr(&r.expr)?; format!("({t}).iter(w)") }
            _ => { let t = self.expr(e)?; format!("({t}).into_iter(w)") }
        })
    }

    /// Frame conditions tried for a loop without annotations: one per part of the contract state and of the world.
    fn guesses(&self, n: &str) -> String {
        let top = self.stack.first().cloned().unwrap_or_default();
        let mut o = String::new();
        let mut add = |kind: &str, t: String| {
            let id = format!("{top}|{n}|{kind}").replace(' ', "_");
            if !self.cfg.noauto.contains(&id) { o.push_str(&format!("    {t}, //@auto {id}\n")); }
        };
        for f in ["proms", "ret", "bal", "st", "regs"] { add(&format!("w_{f}"), format!("w@.{f} == lw_{n}.{f}")); }
        if self.self_ty.is_some() && self.self_name != "NONE" {
            for i in &self.k.types { if let Item::Struct(s) = i { if Some(s.ident.to_string()) == self.self_ty {
                for f in &s.fields { if let Some(id) = &f.ident {
                    add(&format!("s_{id}"), format!("{}.{id} == ls_{n}.{id}", self.self_name));
                    // a collection stays where it is stored
                    if let Type::Path(p) = &f.ty { if ["UnorderedMap", "UnorderedSet", "LookupMap", "LookupSet"].contains(&last_seg(&p.path).as_str()) { add(&format!("p_{id}"), format!("{}.{id}.p@ == ls_{n}.{id}.p@", self.self_name)); } }
                } }
            } } }
        }
        o
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> R<String> {
        if f.label.is_some() { return unsup("loop label"); }
        if has_ret_block(&f.body) && (self.stack.len() > 1 || self.cps_only()) { return unsup("return inside a loop of an inlined function"); }
        // a chain with adaptors in the loop head
        let (base, stages) = split_chain(&f.expr);
        // items taken off a local iterator in place
        let in_place = match &base { Expr::MethodCall(m) if m.method == "by_ref" && m.args.is_empty() => match &*m.receiver { Expr::Path(p) if p.path.get_ident().is_some() => Some(self.expr(&m.receiver)?), _ => None }, _ => None };
        let (it, pre) = match in_place {
            Some(v) => (v, String::new()),
            None => { let base_t = self.iter_expr(&base)?; let it = self.fresh("it"); let pre = format!("let mut {it} = {base_t};\n"); (it, pre) }
        };
        let (mut body, close) = self.stage_body(&it, &stages)?;
        let p = self.pat(&f.pat)?;
        body.push_str(&format!("let {p} = cur__;\n"));
        let idx = *self.loopn.last().unwrap();
        let _ = idx;
        let mv = mut_locals(self.k, &f.body.stmts);
        // reserve the loop number before nested loops
        let b_stmts = &f.body.stmts;
        let saved = *self.loopn.last().unwrap();
        *self.loopn.last_mut().unwrap() = saved + 1;
        let b = self.stmts(b_stmts)?;
        let after = *self.loopn.last().unwrap();
        *self.loopn.last_mut().unwrap() = saved;
        body.push_str(&b);
        body.push_str(&close);
        // for i in 0..xs.len(): the annotations speak of the elements of xs
        let at = match strip_paren(&f.expr) { Expr::Range(r) => match (&r.start, &r.end, &r.limits) { (Some(a), Some(b), RangeLimits::HalfOpen(_)) if matches!(&**a, Expr::Lit(l) if matches!(&l.lit, Lit::Int(i) if i.base10_digits() == "0")) => self.indexed(b)?, _ => None }, _ => None };
        let t = self.loop_text_at(&it, &pre, &format!("while {it}.has_next()"), &body, &mv, None, at.as_deref(), false);
        *self.loopn.last_mut().unwrap() = after;
        Ok(format!("{t}}}"))
    }
    /// `xs.len()` of a local or a field: xs
    fn indexed(&mut self, e: &Expr) -> R<Option<String>> {
        Ok(match strip_paren(e) { Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => match &*m.receiver { Expr::Path(_) | Expr::Field(_) => Some(self.expr(&m.receiver)?), _ => None }, _ => None })
    }

    fn while_loop(&mut self, f: &ExprWhile) -> R<String> {
        if f.label.is_some() { return unsup("loop label"); }
        let c = self.cond(&f.cond)?;
        // while i < xs.len()
        if let Expr::Binary(b) = strip_paren(&f.cond) { if let (BinOp::Lt(_), Expr::Path(p)) = (&b.op, strip_paren(&b.left)) { if p.path.get_ident().is_some() { if let Some(x) = self.indexed(&b.right)? {
            let i = self.expr(&b.left)?;
            let mv: Vec<String> = mut_locals(self.k, &f.body.stmts).into_iter().filter(|v| *v != i).collect();
            let saved = *self.loopn.last().unwrap();
            *self.loopn.last_mut().unwrap() = saved + 1;
            let body = self.stmts(&f.body.stmts)?;
            let after = *self.loopn.last().unwrap();
            *self.loopn.last_mut().unwrap() = saved;
            let t = self.loop_text_at(&i, "", &format!("while {c}"), &body, &mv, None, Some(&x), true);
            *self.loopn.last_mut().unwrap() = after;
            return Ok(format!("{t}}}"));
        } } } }
        self.plain_loop(Some(c), &f.body)
    }
    /// A loop without an iterator: what it changes is unknown after it, but for the call's context.
    fn plain_loop(&mut self, c: Option<String>, body: &Block) -> R<String> {
        let key = self.stack.last().cloned().unwrap_or_default();
        *self.loopn.last_mut().unwrap() += 1;
        let n = self.fresh("L");
        let b = self.stmts(&body.stmts)?;
        let head = match c { Some(c) => format!("while {c}"), None => "loop".into() };
        let g = self.guesses(&n);
        let ls = if self.self_ty.is_some() && self.self_name != "NONE" { format!("let ghost ls_{n} = *{};\n", self.self_name) } else { String::new() };
        Ok(format!("{{\nlet ghost lw_{n} = w@;\n{ls}//@weak {key}\n{head}\n  invariant w@.c == lw_{n}.c,\n{g}{{\n{b}}}\n}}"))
    }

    fn stage_body(&mut self, it: &str, stages: &[(String, Option<Expr>)]) -> R<(String, String)> {
        let mut o = format!("let cur__ = {it}.next_();\n");
        let mut close = String::new();
        for (n, a) in stages {
            match (n.as_str(), a) {
                ("map", Some(c)) => { let (p, b) = self.closure1(c)?; let p = self.pat(&p[0])?; let b = self.expr(&b)?; o.push_str(&format!("let cur__ = {{ let {p} = cur__; {b} }};\n")); }
                ("filter", Some(c)) => { let (p, b) = self.closure1(c)?; let p = self.pat(&p[0])?; let b = self.expr(&b)?; o.push_str(&format!("let keep__ = {{ let {p} = &cur__; {b} }};\nif keep__ {{\n")); close.push_str("}\n"); }
                ("filter_map", Some(c)) => { let (p, b) = self.closure1(c)?; let p = self.pat(&p[0])?; let b = self.expr(&b)?; o.push_str(&format!("let opt__ = {{ let {p} = cur__; {b} }};\nif let Some(cur__) = opt__ {{\n")); close.push_str("}\n"); }
                ("cloned" | "copied", None) => o.push_str("let cur__ = (cur__).pclone();\n"),
                _ => return unsup(format!("iterator adaptor {n}")),
            }
        }
        Ok((o, close))
    }

    fn iter_chain(&mut self, m: &ExprMethodCall) -> R<Option<String>> {
        let n = m.method.to_string();
        let term = ["collect", "any", "all", "count", "sum", "for_each", "fold", "find"].contains(&n.as_str());
        if !term { return Ok(None); }
        let (base, stages) = split_chain(&m.receiver);
        if !is_iter_base(&base) { return Ok(None); }
        let base_t = self.iter_expr(&base)?;
        let it = self.fresh("it");
        let out = self.fresh("out");
        let saved = *self.loopn.last().unwrap();
        *self.loopn.last_mut().unwrap() = saved + 1;
        let (mut body, close) = self.stage_body(&it, &stages)?;
        let mut pre = format!("let mut {it} = {base_t};\n");
        let fin;
        let mut o = None;
        let mut mv = vec![];
        match n.as_str() {
            "collect" => {
                pre.push_str(&format!("let mut {out} = PVec::new(w);\n"));
                body.push_str(&format!("{out}.push(cur__, w);\n"));
                o = Some(out.clone());
                if stages.iter().all(|(n, _)| n == "cloned" || n == "copied") { self.auto_inv = Some(format!("{out}.s@ =~= {it}.items@.take({it}.pos@)")); self.auto_hint = Some(format!("take_step({it}.items@, {it}.pos@);")); self.auto_post = Some(format!("assert({it}.items@.take({it}.items@.len() as int) =~= {it}.items@);")); }
                let tf = match &m.turbofish { Some(t) => match t.args.first() { Some(GenericArgument::Type(t)) => self.t(t)?, _ => "_".into() }, None => "_".into() };
                fin = format!("<{tf} as PCollect<_>>::pcollect({out})");
            }
            "any" | "all" => {
                let (p, b) = self.closure1(&m.args[0])?; let p = self.pat(&p[0])?; let b = self.expr(&b)?;
                pre.push_str(&format!("let mut {out} = {};\n", n == "all"));
                body.push_str(&format!("let t__ = {{ let {p} = cur__; {b} }};\nif {}t__ {{ {out} = {}; }}\n", if n == "all" { "!" } else { "" }, n == "any"));
                mv.push(out.clone());
                fin = out.clone();
            }
            "count" => { pre.push_str(&format!("let mut {out}: usize = 0;\n")); body.push_str(&format!("{out} = rt::add({out}, 1, w);\n")); mv.push(out.clone()); fin = out.clone(); }
            "sum" => { pre.push_str(&format!("let mut {out}: u128 = 0;\n")); body.push_str(&format!("{out} = rt::add({out}, cur__, w);\n")); mv.push(out.clone()); fin = out.clone(); }
            "for_each" => { let (p, b) = self.closure1(&m.args[0])?; let p = self.pat(&p[0])?; let b = self.expr(&b)?; body.push_str(&format!("{{ let {p} = cur__; {b}; }}\n")); fin = "()".into(); }
            "fold" => {
                let i = self.expr(&m.args[0])?; let (p, b) = self.closure1(&m.args[1])?; let (p0, p1) = (self.pat(&p[0])?, self.pat(&p[1])?); let b = self.expr(&b)?;
                pre.push_str(&format!("let mut {out} = {i};\n"));
                body.push_str(&format!("{out} = {{ let {p0} = {out}; let {p1} = cur__; {b} }};\n")); mv.push(out.clone()); fin = out.clone();
            }
            _ => return unsup(format!("iterator terminal {n}")),
        }
        // locals the closures change, as the same loop written out would
        for c in stages.iter().filter_map(|s| s.1.as_ref()).chain(m.args.iter()) {
            if let Expr::Closure(c) = strip_paren(c) {
                let own: Vec<String> = c.inputs.iter().flat_map(pat_vars).collect();
                for v in mut_locals(self.k, &[Stmt::Expr((*c.body).clone(), None)]) { if !mv.contains(&v) && !own.contains(&v) { mv.push(v); } }
            }
        }
        body.push_str(&close);
        let after = *self.loopn.last().unwrap();
        *self.loopn.last_mut().unwrap() = saved;
        let t = self.loop_text(&it, &pre, &format!("while {it}.has_next()"), &body, &mv, o.as_deref());
        *self.loopn.last_mut().unwrap() = after;
        Ok(Some(format!("{t}{fin}\n}}")))
    }
}

fn parse_quote_call(p: &ExprPath, id: &Ident) -> R<Expr> {
    parse_str(&format!("{}({id})", p.to_token_stream())).map_err(|e| e.to_string())
}
fn unit_stmt() -> Stmt { Stmt::Expr(parse_str::<Expr>("()").unwrap(), None) }
fn has_ret_block(b: &Block) -> bool { b.stmts.iter().any(has_ret_stmt) }
fn contains_impl(t: &Type) -> bool { t.to_token_stream().to_string().contains("impl ") }
fn join_c(a: &[String]) -> String { if a.is_empty() { String::new() } else { format!("{}, ", a.join(", ")) } }
fn strip_ref(e: &Expr) -> &Expr { match strip_paren(e) { Expr::Reference(r) => strip_ref(&r.expr), e => e } }
fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(p) => strip_paren(&p.expr), e => e } }
/// The operands of a `+` chain over strings (one of them a literal, or a borrow: numbers are never added by reference here).
fn str_sum(b: &ExprBinary) -> Option<Vec<&Expr>> {
    fn go<'a>(e: &'a Expr, v: &mut Vec<&'a Expr>) { match strip_paren(e) { Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) => { go(&b.left, v); go(&b.right, v); } e => v.push(e) } }
    let mut v = vec![];
    go(&b.left, &mut v);
    v.push(strip_paren(&b.right));
    let strs = v.iter().any(|x| lit_str(x).is_some()) || (v.len() > 1 && v[1..].iter().all(|x| matches!(x, Expr::Reference(_))));
    if strs { Some(v) } else { None }
}
/// `|c| c == 'x'` or `|c| c != b'x'`: (is equality, the character literal)
fn char_test(e: &Expr) -> Option<(bool, String)> {
    let Expr::Closure(c) = e else { return None };
    if c.inputs.len() != 1 { return None; }
    let p = c.inputs[0].to_token_stream().to_string();
    let mut body = strip_paren(&c.body);
    let mut neg = false;
    if let Expr::Unary(u) = body { if matches!(u.op, UnOp::Not(_)) { neg = true; body = strip_paren(&u.expr); } }
    let Expr::Binary(b) = body else { return None };
    let eq = match b.op { BinOp::Eq(_) => true, BinOp::Ne(_) => false, _ => return None };
    let (mut l, mut r) = (strip_paren(&b.left), strip_paren(&b.right));
    if matches!(l, Expr::Lit(_)) { std::mem::swap(&mut l, &mut r); }
    if let Expr::Unary(u) = l { l = strip_paren(&u.expr); }
    if let Expr::Reference(x) = r { r = strip_paren(&x.expr); }
    if l.to_token_stream().to_string() != p.trim_start_matches("& ").trim_start_matches('&') { return None; }
    let ch = match r { Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => c.value(), Expr::Lit(ExprLit { lit: Lit::Byte(c), .. }) if c.value() < 128 => c.value() as char, _ => return None };
    Some((eq != neg, format!("{ch:?}")))
}
fn is_place(e: &Expr) -> bool { match strip_paren(e) { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Index(i) => is_place(&i.expr), Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr), _ => false } }
fn lit_str(e: &Expr) -> Option<String> { match strip_paren(e) { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), Expr::Reference(r) => lit_str(&r.expr), _ => None } }
fn is_stmt_macro(m: &Macro) -> bool { let n = last_seg(&m.path); ["assert", "assert_eq", "assert_ne", "debug_assert", "debug_assert_eq", "log", "println", "require"].contains(&n.as_str()) }
fn is_shim_method(n: &str) -> bool { ["transfer", "stake", "then", "get", "insert", "remove", "contains", "len", "push", "is_empty", "iter", "clear", "create_account", "add_full_access_key", "add_access_key", "delete_key", "delete_account", "function_call", "deploy_contract"].contains(&n) }
fn strip_log(e: &Expr) -> Expr {
    match strip_paren(e) {
        Expr::MethodCall(m) if ["as_bytes", "as_ref", "as_str", "to_string"].contains(&m.method.to_string().as_str()) => strip_log(&m.receiver),
        Expr::Reference(r) => strip_log(&r.expr),
        e => e.clone(),
    }
}
fn flatten_log(e: &Expr, v: &mut Vec<Expr>) {
    if let Expr::Macro(m) = e {
        if last_seg(&m.mac.path) == "format" {
            if let Ok(p) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.mac.tokens.clone()) { for x in p { flatten_log(&x, v); } return; }
        }
    }
    if matches!(e, Expr::Lit(_)) { return; }
    v.push(e.clone());
}
fn is_iter_base(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Range(_) => true,
        Expr::MethodCall(m) => ["iter", "into_iter", "keys", "values", "drain", "rev", "take", "skip"].contains(&m.method.to_string().as_str()),
        _ => false,
    }
}
/// Splits `base.map(f).filter(g)` into (base, stages).
fn split_chain(e: &Expr) -> (Expr, Vec<(String, Option<Expr>)>) {
    if let Expr::MethodCall(m) = strip_paren(e) {
        let n = m.method.to_string();
        if ["map", "filter", "filter_map", "cloned", "copied"].contains(&n.as_str()) {
            let (b, mut s) = split_chain(&m.receiver);
            if is_iter_base(&b) { s.push((n, m.args.first().cloned())); return (b, s); }
        }
    }
    (e.clone(), vec![])
}
fn pat_vars(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, i: &'a PatIdent) { if i.ident.to_string().chars().next().unwrap().is_lowercase() { self.0.push(i.ident.to_string()); } } }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}
/// Local variables assigned in a loop body but declared outside, in order of first assignment.
fn mut_locals(k: &Krate, ss: &[Stmt]) -> Vec<String> {
    struct V<'k> { k: &'k Krate, decl: BTreeSet<String>, out: Vec<String> }
    impl<'k> V<'k> { fn add(&mut self, e: &Expr) { match e { Expr::Path(p) if p.path.segments.len() == 1 => { let s = p.path.segments[0].ident.to_string(); if s != "self" && !self.decl.contains(&s) && !self.out.contains(&s) { self.out.push(s); } } Expr::Field(f) => self.add(&f.base), _ => {} } } }
    impl<'a, 'k> Visit<'a> for V<'k> {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) { self.decl.insert(i.ident.to_string()); }
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) { self.add(&a.left); syn::visit::visit_expr_assign(self, a); }
        fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
            use BinOp::*;
            if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_)) { self.add(&b.left); }
            syn::visit::visit_expr_binary(self, b);
        }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if ["push", "insert", "remove", "extend", "clear", "pop"].contains(&m.method.to_string().as_str()) { if let Expr::Path(_) = &*m.receiver { self.add(&m.receiver); } }
            if let Expr::Path(_) = &*m.receiver { let n = m.method.to_string(); if self.k.by_name.get(&n).map(|v| v.iter().any(|x| self.k.fns[x].recv == Some((true, true)))).unwrap_or(false) { self.add(&m.receiver); } }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V { k, decl: BTreeSet::new(), out: vec![] };
    for s in ss { v.visit_stmt(s); }
    v.out
}

// ==================================================================== crate emission
struct Out { s: String, line: usize, map: Vec<Value>, bcast: Vec<String> }
impl Out {
    fn put(&mut self, t: &str) { for _ in t.matches('\n') { self.line += 1; } self.s.push_str(t); }
    fn ln(&mut self, t: &str) { self.put(t); self.put("\n"); }
}

fn js_fields(fields: &Fields, base: &str) -> R<String> {
    let v: Vec<String> = js_names(fields)?.into_iter().map(|(n, j)| format!("\"{j}\"@ => ({base}{n}).js()")).collect();
    Ok(format!("JV::O(map![{}])", v.join(", ")))
}
fn js_names(fields: &Fields) -> R<Vec<(String, String)>> {
    let mut v = vec![];
    for (i, f) in fields.iter().enumerate() {
        let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
        let mut jn = n.trim_end_matches("_u").to_string();
        for a in f.attrs.iter().filter(|a| a.path().is_ident("serde")) {
            match &a.meta {
                Meta::List(l) => for m in l.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).map_err(|e| e.to_string())? { match &m {
                    Meta::Path(p) if p.is_ident("borrow") => {}
                    Meta::NameValue(v) if v.path.is_ident("rename") => match &v.value { Expr::Lit(ExprLit { lit: Lit::Str(x), .. }) => jn = x.value(), _ => return unsup("serde rename") },
                    _ => return unsup("serde field attribute"),
                } },
                _ => return unsup("serde field attribute"),
            }
        }
        v.push((n, jn));
    }
    Ok(v)
}

fn emit_types(k: &Krate, con: &Contract, o: &mut Out) -> R<()> {
    for it in &k.types {
        match it {
            Item::Type(t) => { if k.type_names.contains(&t.ident.to_string()) { let x = ty(k, &t.ty)?; o.ln(&format!("pub type {} = {};", t.ident, x)); } }
            Item::Struct(s) => {
                let n = s.ident.to_string();
                if n == "U256" { continue; }
                if derives(&s.attrs, "BorshStorageKey") { return unsup("struct storage key"); }
                if derives(&s.attrs, "Copy") { o.ln("#[derive(Clone, Copy)]"); }
                match &s.fields {
                    Fields::Named(f) => { let mut v = vec![]; for x in &f.named { v.push(format!("pub {}: {}", x.ident.as_ref().unwrap(), ty(k, &x.ty)?)); } o.ln(&format!("pub struct {n} {{ {} }}", v.join(", "))); }
                    Fields::Unnamed(f) => { let mut v = vec![]; for x in &f.unnamed { v.push(format!("pub {}", ty(k, &x.ty)?)); } o.ln(&format!("pub struct {n}({});", v.join(", "))); }
                    Fields::Unit => o.ln(&format!("pub struct {n};")),
                }
                let sattr: String = s.attrs.iter().filter(|a| a.path().is_ident("serde")).map(|a| a.meta.to_token_stream().to_string()).collect();
                if derives(&s.attrs, "Serialize") && ["rename", "tag", "into", "transparent", "remote"].iter().any(|x| sattr.contains(x)) {
                    o.ln(&format!("pub uninterp spec fn js_{n}(x: {n}) -> JV;\nimpl PJson for {n} {{ open spec fn js(self) -> JV {{ js_{n}(self) }} }}"));
                } else if derives(&s.attrs, "Serialize") {
                    let js = match &s.fields { Fields::Unnamed(f) if f.unnamed.len() == 1 => Ok("self.0.js()".to_string()), f => js_fields(f, "self.") };
                    if let Ok(js) = js { o.ln(&format!("impl PJson for {n} {{ open spec fn js(self) -> JV {{ {js} }} }}")); }
                }
                if k.local_types.contains(&n) && derives(&s.attrs, "Deserialize") && !derives(&s.attrs, "Serialize") {
                    // a JSON object parses to T only with every member T names, holding what T's field holds
                    if let (Ok(js), false) = (js_names(&s.fields), ["rename", "tag", "into", "transparent", "remote", "default"].iter().any(|x| sattr.contains(x))) {
                        let fs: String = js.iter().map(|(n, j)| format!(" && json_unbytes(b)->O_0.dom().contains({j:?}@) && json_unbytes(b)->O_0[{j:?}@] == (x.{n}).js()")).collect();
                        o.ln(&format!("pub open spec fn from_js_{n}(x: {n}, b: Seq<u8>) -> bool {{ json_unbytes(b) is O{fs} }}\n#[verifier::external_body]\npub broadcast proof fn parsed_{n}(b: Seq<u8>) ensures json_ok::<{n}>(b) ==> from_js_{n}(#[trigger] json_parse::<{n}>(b), b) {{}}"));
                        o.bcast.push(format!("parsed_{n}"));
                    }
                }
                if derives(&s.attrs, "Default") {
                    let mut v = vec![]; let mut ve = vec![];
                    for x in &s.fields { let t = ty(k, &x.ty)?; let i = x.ident.as_ref().ok_or("default tuple")?; v.push(format!("{i}: <{t} as PDefault>::pdef()")); ve.push(format!("{i}: <{t} as PDefault>::pdefault()")); }
                    o.ln(&format!("impl PDefault for {n} {{ open spec fn pdef() -> Self {{ {n} {{ {} }} }} fn pdefault() -> (r: Self) {{ {n} {{ {} }} }} }}", v.join(", "), ve.join(", ")));
                }
            }
            Item::Enum(e) => {
                let n = e.ident.to_string();
                if derives(&e.attrs, "Copy") { o.ln("#[derive(Clone, Copy)]"); }
                let mut v = vec![];
                let mut arms = vec![];
                let mut jerr = false;
                let sattr: String = e.attrs.iter().filter(|a| a.path().is_ident("serde")).map(|a| a.meta.to_token_stream().to_string()).collect();
                let untagged = sattr.contains("untagged");
                let tagged = !untagged && (sattr.contains("tag") || sattr.contains("rename"));
                for x in &e.variants {
                    let vn = &x.ident;
                    match &x.fields {
                        Fields::Unit => { v.push(format!("{vn}")); arms.push(format!("{n}::{vn} => JV::S(\"{vn}\"@)")); }
                        Fields::Unnamed(f) => {
                            let mut ts = vec![]; for y in &f.unnamed { ts.push(ty(k, &y.ty)?); }
                            if ts.len() != 1 { jerr = true; }
                            v.push(format!("{vn}({})", ts.join(", "))); arms.push(if untagged { format!("{n}::{vn}(x) => x.js()") } else { format!("{n}::{vn}(x) => JV::O(map![\"{vn}\"@ => x.js()])") });
                        }
                        Fields::Named(f) => {
                            let mut ts = vec![]; let mut names = vec![];
                            for y in &f.named { let id = y.ident.as_ref().unwrap(); names.push(id.to_string()); ts.push(format!("{id}: {}", ty(k, &y.ty)?)); }
                            v.push(format!("{vn} {{ {} }}", ts.join(", ")));
                            match js_fields(&x.fields, "") { Ok(js) => arms.push(if untagged { format!("{n}::{vn} {{ {} }} => {js}", names.join(", ")) } else { format!("{n}::{vn} {{ {} }} => JV::O(map![\"{vn}\"@ => {js}])", names.join(", ")) }), Err(_) => jerr = true }
                        }
                    }
                }
                o.ln(&format!("pub enum {n} {{ {} }}", v.join(", ")));
                if derives(&e.attrs, "Serialize") {
                    if jerr || tagged { o.ln(&format!("pub uninterp spec fn js_{n}(x: {n}) -> JV;\nimpl PJson for {n} {{ open spec fn js(self) -> JV {{ js_{n}(self) }} }}")); }
                    else { o.ln(&format!("impl PJson for {n} {{ open spec fn js(self) -> JV {{ match self {{ {} }} }} }}", arms.join(", "))); }
                }
                if derives(&e.attrs, "BorshStorageKey") {
                    let mut ar = vec![];
                    for (i, x) in e.variants.iter().enumerate() {
                        match &x.fields { Fields::Unit => ar.push(format!("{n}::{} => seq![{i}u8]", x.ident)), Fields::Unnamed(f) => ar.push(format!("{n}::{}({}) => arbitrary()", x.ident, vec!["_"; f.unnamed.len()].join(", "))), Fields::Named(_) => ar.push(format!("{n}::{} {{ .. }} => arbitrary()", x.ident)) }
                    }
                    o.ln(&format!("impl PPrefix for {n} {{ open spec fn prefix(self) -> Seq<u8> {{ match self {{ {} }} }} }}", ar.join(", ")));
                }
            }
            _ => {}
        }
    }
    let _ = con;
    Ok(())
}

fn want(c: &Clause, cfg: &Cfg) -> bool { c.tags.is_empty() || cfg.props.is_empty() || c.tags.iter().any(|t| cfg.props.contains(t)) }

fn std_map(fi: &FnInfo, params: &[String], names: &[String]) -> Vec<(String, String)> {
    let mut m = vec![];
    for (i, p) in params.iter().enumerate() { if let Some(n) = names.get(i) { m.push((p.clone(), n.clone())); } }
    m.push(("W0".into(), "old(w)@".into()));
    m.push(("W1".into(), "final(w)@".into()));
    match fi.recv {
        Some((true, true)) => { m.push(("S0".into(), "(*old(self))".into())); m.push(("S1".into(), "(*final(self))".into())); }
        Some((true, false)) => { m.push(("S0".into(), "(*self)".into())); m.push(("S1".into(), "(*self)".into())); }
        Some((false, _)) => { m.push(("S0".into(), "self".into())); m.push(("S1".into(), "self".into())); }
        None => { m.push(("S1".into(), "ret".into())); }
    }
    m
}
/// The local vector a `read_register(_, X.as_ptr() as _)` call fills.
pub fn sys_buffer(c: &ExprCall) -> Option<Ident> {
    fn go(e: &Expr) -> Option<Ident> {
        match e {
            Expr::Cast(c) => go(&c.expr),
            Expr::Paren(p) => go(&p.expr),
            Expr::MethodCall(m) if m.method == "as_ptr" || m.method == "as_mut_ptr" => match &*m.receiver { Expr::Path(p) => p.path.get_ident().cloned(), _ => None },
            _ => None,
        }
    }
    c.args.iter().nth(1).and_then(go)
}
fn is_ref(p: &Param) -> bool { matches!(&p.ty, Type::Reference(_)) }
// proof text sees the value a parameter came in with, even after the code moved or shadowed it
fn ghost_params(fi: &FnInfo) -> String {
    let mut t = String::new();
    for p in &fi.params { if let (Pat::Ident(i), false) = (&p.pat, is_ref(p)) { t.push_str(&format!("let ghost g__{0} = {0};\n", i.ident)); } }
    t
}
fn hint_map(fi: &FnInfo, mut m: Vec<(String, String)>) -> Vec<(String, String)> {
    for p in &fi.params { if let (Pat::Ident(i), false) = (&p.pat, is_ref(p)) {
        let n = i.ident.to_string();
        for x in m.iter_mut() { if x.1 == n { x.1 = format!("g__{n}"); } }
    } }
    m.retain(|x| x.0 != "W0" && x.0 != "W1" && x.0 != "S1");
    m.push(("W0".into(), "w0__".into()));
    m.push(("W1".into(), "w@".into()));
    match fi.recv { Some((true, _)) => m.push(("S1".into(), "(*self)".into())), Some(_) => m.push(("S1".into(), "self".into())), None => m.push(("S1".into(), "ret".into())) }
    m
}

fn clauses(o: &mut Out, kw: &str, cs: &[(&Clause, Vec<(String, String)>)], dflt: &[String], fnk: &str, kind: &str) {
    if cs.is_empty() && dflt.is_empty() { return; }
    o.ln(kw);
    for d in dflt { o.ln(&format!("    {d},")); }
    for (c, m) in cs {
        let t = subst(&c.text, m);
        let st = o.line;
        o.ln(&format!("    ({t}),"));
        o.map.push(json!({"kind": kind, "fn": fnk, "line": st, "end": o.line - 1, "tags": c.tags, "text": c.text}));
    }
}

pub fn emit_crate(k: &Krate, con: &Contract, cfg: &Cfg, rt: &str) -> R<(String, Value)> {
    let mut o = Out { s: String::new(), line: 1, map: vec![], bcast: vec![] };
    o.ln("#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, unused_parens, unused_braces, dead_code, non_snake_case, unreachable_code, unused_must_use, path_statements, non_camel_case_types)]");
    o.ln("use vstd::prelude::*;\nverus! {");
    o.ln(rt);
    o.ln("use rt::*;");
    for d in con.structs.iter() { check_struct(k, d.0, d.1)?; }
    emit_types(k, con, &mut o)?;
    // contracted functions actually present
    let contracted: BTreeSet<String> = con.fns.keys().filter(|f| k.fns.contains_key(*f) && !cfg.drop.contains(*f)).cloned().collect();
    let missing: Vec<&String> = con.fns.keys().filter(|f| !k.fns.contains_key(*f)).collect();
    for (key, f) in &k.fns {
        if f.in_trait_impl.as_deref() != Some("ToString") { continue; }
        let t = f.ty.clone().unwrap();
        let spec = if contracted.contains(key) { "json_str((*self).js())".to_string() } else { o.ln(&format!("pub uninterp spec fn disp_{t}(x: {t}) -> Seq<char>;")); format!("disp_{t}(*self)") };
        o.ln(&format!("impl PDisp for {t} {{ open spec fn disp(&self) -> Seq<char> {{ {spec} }} #[verifier::external_body] fn pstr(&self) -> (r: Str) {{ unimplemented!() }} }}"));
    }
    // From / Default impls
    for (t, b) in &k.defaults {
        if Some(t) == k.contract_ty.as_ref() { continue; }
        let mut em = mk_em(k, con, cfg, &contracted);
        em.self_ty = Some(t.clone());
        em.stack = vec![format!("{t}::default")];
        let body = em.stmts(&b.stmts)?;
        let spec = spec_body(&body);
        o.ln(&format!("impl PDefault for {t} {{ open spec fn pdef() -> Self {{ {spec} }} fn pdefault() -> (r: Self) {{ {body} }} }}"));
    }
    for c in &con.prelude {
        if !want(c, cfg) { continue; }
        let st = o.line;
        o.ln(&c.text);
        o.map.push(json!({"kind": "prelude", "fn": "prelude", "line": st, "end": o.line - 1, "tags": c.tags}));
    }
    let mut inlined_fns: BTreeSet<String> = BTreeSet::new();
    let mut nfun = 0;
    // contracted functions
    for key in &contracted {
        let f = &k.fns[key];
        let c = &con.fns[key];
        emit_fn(k, con, cfg, &contracted, &mut o, f, c, cfg.canary)?;
        if cfg.canary { emit_canary(k, con, cfg, &contracted, &mut o, f, c)?; }
        nfun += 1;
    }
    // entry wrappers
    let mut entries = vec![];
    for (key, f) in &k.fns {
        if !f.exported { continue; }
        let mut cs: Vec<&FnC> = vec![];
        if let Some(v) = con.entries.get(&f.name) { cs.extend(v.iter()); }
        if f.is_init { cs.extend(con.inits.iter()); } else {
            for s in &con.steps { if !s.except.contains(&f.name) && (s.only.is_empty() || s.only.contains(&f.name)) { cs.push(s); } }
        }
        emit_entry(k, con, cfg, &contracted, &mut o, f, &cs, None)?;
        entries.push(key.clone());
    }
    for (i, (n, c)) in con.nopanic.iter().enumerate() {
        if let Some((_, f)) = k.fns.iter().find(|(_, f)| f.exported && f.name == *n) {
            if c.ens.iter().chain(c.req.iter()).any(|x| want(x, cfg)) { emit_entry(k, con, cfg, &contracted, &mut o, f, &[c], Some(i))?; }
        }
    }
    // using the contract before initialisation goes through its Default, which must never return
    if cfg.props.is_empty() || cfg.props.contains("C24") {
        if let Some(ct) = &k.contract_ty {
            let derived = k.types.iter().any(|i| matches!(i, Item::Struct(s) if s.ident == *ct && derives(&s.attrs, "PanicOnDefault")));
            // a contract without fields has nothing to initialise
            let stateless = k.types.iter().any(|i| matches!(i, Item::Struct(s) if s.ident == *ct && s.fields.is_empty()));
            if !derived && !stateless {
                let body = match k.defaults.iter().find(|(t, _)| *t == ct) {
                    Some((_, b)) => { let mut em = mk_em(k, con, cfg, &contracted); em.self_ty = Some(ct.clone()); em.self_name = "NONE".into(); em.stack = vec!["entry default".to_string()]; em.cps(&b.stmts)? }
                    None => "rt::any()".into(),
                };
                let st = o.line;
                o.ln(&format!("impl {ct} {{\n#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]\npub fn entry__default(w: &mut World) -> (ret: {ct})\n  requires old(w)@.c.mp\n  ensures"));
                let cl = o.line;
                o.ln("    (false),");
                o.map.push(json!({"kind": "ens", "fn": "entry default", "line": cl, "end": cl, "tags": ["C24"], "text": "using the contract before initialisation never returns"}));
                o.ln(&format!("{{\n{body}\n}}\n}}"));
                o.map.push(json!({"kind": "fn", "fn": "entry default", "line": st, "end": o.line, "entry": true}));
            }
        }
    }
    let missing_entries: Vec<&String> = con.entries.keys().filter(|n| !k.fns.values().any(|f| f.exported && f.name == **n)).collect();
    // every distinct string literal gets a distinct number: literals with different text are different strings
    let mut lits: BTreeSet<String> = BTreeSet::new();
    for pat in ["slit(\"", "blit(\""] {
        let mut rest = o.s.as_str();
        while let Some(i) = rest.find(pat) { rest = &rest[i + pat.len()..]; if let Some(j) = rest.find('"') { if !rest[..j].contains('\\') { lits.insert(rest[..j].to_string()); } } }
    }
    let mut rest = o.s.as_str();
    while let Some(j) = rest.find("\"@") { let h = &rest[..j]; if let Some(i) = h.rfind('"') { lits.insert(h[i + 1..].to_string()); } rest = &rest[j + 2..]; }
    o.ln("pub uninterp spec fn lit_num(s: Seq<char>) -> int;\n#[verifier::external_body]\npub proof fn lit_facts() ensures true,");
    for (i, l) in lits.iter().enumerate() { o.ln(&format!("  lit_num({l:?}@) == {i},")); }
    o.ln("{}");
    o.ln("} // verus!\nfn main() {}");
    let extra: String = o.bcast.iter().map(|b| format!(", {b}")).collect();
    o.s = o.s.replace("BCAST__", &format!("broadcast use {{rt::axiom_str_bytes, rt::axiom_json_str, rt::seq_map_kv, rt::cat_assoc, rt::cat_dot{extra}}};"));
    let _ = (&mut inlined_fns, nfun);
    let missing_loops: Vec<&String> = con.loops_only.keys().filter(|f| !k.fns.contains_key(*f)).collect();
    let m = json!({"map": o.map, "missing_loops": missing_loops, "missing_fns": missing, "missing_entries": missing_entries, "contracted": contracted, "entries": entries, "sdk": k.sdk,
        "exported": k.fns.values().filter(|f| f.exported).map(|f| f.name.clone()).collect::<Vec<_>>()});
    Ok((o.s, m))
}

fn check_struct(k: &Krate, n: &str, fields: &[String]) -> R<()> {
    for i in &k.types {
        if let Item::Struct(s) = i {
            if s.ident == n {
                let have: Vec<String> = s.fields.iter().filter_map(|f| f.ident.as_ref().map(|x| x.to_string())).collect();
                for f in fields { if !have.contains(f) { return Err(format!("lost anchor: field {f} of {n}")); } }
                return Ok(());
            }
        }
    }
    Err(format!("lost anchor: struct {n}"))
}

fn spec_body(exec: &str) -> String { exec.replace("rt::slit(", "spec_slit(").replace("::pdefault()", "::pdef()") }

fn mk_em<'a>(k: &'a Krate, con: &'a Contract, cfg: &'a Cfg, contracted: &'a BTreeSet<String>) -> Em<'a> {
    Em { k, con, cfg, contracted, uid: 0, self_ty: None, self_name: "self".into(), stack: vec![], loopn: vec![0], pmap: vec![vec![]], ret_ty: vec![None], mut_self: false, vars: vec![], loops_used: 0, auto_inv: None, auto_hint: None, auto_post: None }
}

fn sig_text(k: &Krate, f: &FnInfo, name: &str, skip_cb: bool) -> R<(String, Vec<String>, String)> {
    let mut ps = vec![];
    let mut names = vec![];
    let mut pre = String::new();
    match f.recv { Some((true, true)) => ps.push("&mut self".into()), Some((true, false)) => ps.push("&self".into()), Some((false, _)) => ps.push("self".into()), None => {} }
    for (i, p) in f.params.iter().enumerate() {
        let t = ty_s(k, &p.ty, f.ty.as_deref())?;
        let (n, m) = match &p.pat { Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()), Pat::Wild(_) => (format!("_p{i}"), false), _ => return unsup("parameter pattern") };
        names.push(n.clone());
        if m { pre.push_str(&format!("let mut {n} = {n};\n")); }
        if skip_cb && p.callback.is_some() { continue; }
        ps.push(format!("{n}: {t}"));
    }
    ps.push("w: &mut World".into());
    let r = match &f.ret { Some(t) => format!(" -> (ret: {})", ty_s(k, t, f.ty.as_deref())?), None => String::new() };
    Ok((format!("pub fn {name}({}){r}", ps.join(", ")), names, pre))
}

fn open_impl(o: &mut Out, f: &FnInfo) { if let Some(t) = &f.ty { o.ln(&format!("impl {t} {{")); } }
fn close_impl(o: &mut Out, f: &FnInfo) { if f.ty.is_some() { o.ln("}"); } }

fn emit_fn(k: &Krate, con: &Contract, cfg: &Cfg, contracted: &BTreeSet<String>, o: &mut Out, f: &FnInfo, c: &FnC, external: bool) -> R<()> {
    let (sig, names, pre) = sig_text(k, f, &f.name, false)?;
    let m = std_map(f, &c.params, &names);
    open_impl(o, f);
    if external { o.ln("#[verifier::external_body]"); }
    o.ln("#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]");
    for a in &c.attrs { o.ln(a); }
    let st = o.line;
    o.ln(&sig);
    let req: Vec<_> = c.req.iter().filter(|x| want(x, cfg)).map(|x| (x, m.clone())).collect();
    let dr = if req.is_empty() { vec!["old(w)@.c.mp".to_string()] } else { vec![] };
    clauses(o, "  requires", &req, &dr, &f.key, "req");
    let ens: Vec<_> = c.ens.iter().filter(|x| want(x, cfg)).map(|x| (x, m.clone())).collect();
    clauses(o, "  ensures", &ens, &["final(w)@.c == old(w)@.c".to_string()], &f.key, "ens");
    o.ln("{");
    if external { o.ln("unimplemented!()"); }
    else {
        let t = fn_body(k, con, cfg, contracted, f, c, &m, &pre)?;
        o.ln(&t);
    }
    o.ln("}");
    let en = o.line;
    close_impl(o, f);
    o.map.push(json!({"kind": "fn", "fn": f.key, "line": st, "end": en, "entry": false}));
    Ok(())
}

fn fn_body(k: &Krate, con: &Contract, cfg: &Cfg, contracted: &BTreeSet<String>, f: &FnInfo, c: &FnC, m: &[(String, String)], pre: &str) -> R<String> {
    let mut em = mk_em(k, con, cfg, contracted);
    em.self_ty = f.ty.clone();
    if f.recv.is_none() { em.self_name = "NONE".into(); }
    em.stack = vec![f.key.clone()];
    em.ret_ty = vec![f.ret.clone()];
    em.pmap = vec![m.iter().map(|x| if f.params.iter().any(|p| !is_ref(p) && matches!(&p.pat, Pat::Ident(i) if i.ident == x.1)) { (x.0.clone(), format!("g__{}", x.1)) } else { x.clone() }).collect()];
    em.mut_self = matches!(f.recv, Some((true, true)));
    em.know_params(f);
    let hm = hint_map(f, m.to_vec());
    let mut t = String::new();
    t.push_str("BCAST__\nlet ghost w0__ = w@;\nproof { lit_facts(); }\n");
    t.push_str(&ghost_params(f));
    t.push_str(pre);
    for h in &c.pre { if want(h, cfg) { t.push_str(&format!("proof {{ {} }}\n", subst(&h.text, &hm))); } }
    if c.hint.is_empty() { t.push_str(&em.stmts(&f.block.stmts)?); }
    else {
        let body = em.cps(&f.block.stmts)?;
        t.push_str(&format!("let ret{} = {{\n{body}}};\n", match &f.ret { Some(t) => format!(": {}", ty_s(k, t, f.ty.as_deref())?), None => String::new() }));
        for h in &c.hint { if want(h, cfg) { t.push_str(&format!("proof {{ {} }}\n", subst(&h.text, &hm))); } }
        t.push_str("ret");
    }
    Ok(t)
}

fn emit_canary(k: &Krate, con: &Contract, cfg: &Cfg, contracted: &BTreeSet<String>, o: &mut Out, f: &FnInfo, c: &FnC) -> R<()> {
    let name = format!("canary__{}", f.name);
    let (sig, names, pre) = sig_text(k, f, &name, false)?;
    let m = std_map(f, &c.params, &names);
    open_impl(o, f);
    let st = o.line;
    o.ln(&sig);
    let req: Vec<_> = c.req.iter().filter(|x| want(x, cfg)).map(|x| (x, m.clone())).collect();
    let dr = if req.is_empty() { vec!["old(w)@.c.mp".to_string()] } else { vec![] };
    clauses(o, "  requires", &req, &dr, &f.key, "req");
    o.ln("  ensures false,");
    o.ln("{");
    let t = fn_body(k, con, cfg, contracted, f, c, &m, &pre)?;
    o.ln(&t);
    o.ln("}");
    let en = o.line;
    close_impl(o, f);
    o.map.push(json!({"kind": "canary", "fn": f.key, "line": st, "end": en}));
    Ok(())
}

fn js_class(t: &str) -> &str {
    if ["U64", "U128", "I64", "I128"].iter().any(|x| t.ends_with(x)) { "decimal string" }
    else if ["u8", "u16", "u32", "u64", "u128", "i64", "i128", "usize"].contains(&t) { "number" }
    else if t == "bool" { "bool" } else { "" }
}

/// What the callers of an exported function write into its JSON arguments against what the function reads from them:
/// the self-calls of the crate go through the ext_contract trait, the calls of the repository's other contracts are listed with @api.
fn arg_mismatch(k: &Krate, con: &Contract, f: &FnInfo) -> R<Vec<String>> {
    let mut senders: Vec<Vec<(String, String)>> = vec![];
    for (m, x) in &k.exts {
        if !m.contains("self") && !f.name.starts_with("on_") { continue; }
        if let Some(ps) = x.methods.get(&f.name) { let mut v = vec![]; for (n, t) in ps { v.push((n.clone(), ty_s(k, t, None)?)); } senders.push(v); }
    }
    if let Some(v) = con.api.get(&f.name) { senders.push(v.clone()); }
    let mut bad = vec![];
    for s in senders {
        for p in &f.params {
            if p.callback.is_some() { continue; }
            let Pat::Ident(i) = &p.pat else { continue };
            let (n, t) = (i.ident.to_string(), ty_s(k, &p.ty, f.ty.as_deref())?);
            match s.iter().find(|x| x.0 == n) {
                None if t.starts_with("Option<") => {}
                None => bad.push(format!("{} reads the argument {n:?}, its callers send {:?}", f.name, s.iter().map(|x| &x.0).collect::<Vec<_>>())),
                Some((_, u)) => { let (a, b) = (js_class(&t), js_class(u)); if !a.is_empty() && !b.is_empty() && a != b { bad.push(format!("{} reads {n:?} as a {a}, its callers send a {b}", f.name)); } }
            }
        }
    }
    Ok(bad)
}

fn emit_entry(k: &Krate, con: &Contract, cfg: &Cfg, contracted: &BTreeSet<String>, o: &mut Out, f: &FnInfo, cs: &[&FnC], np: Option<usize>) -> R<()> {
    let name = match np { None => format!("entry__{}", f.name), Some(i) => format!("nopanic{i}__{}", f.name) };
    // a contract that says nothing about panics is of no use where their absence is to be shown: such helpers are verified through their bodies
    let total: BTreeSet<String> = contracted.iter().filter(|x| con.fns.get(*x).map(|c| c.req.iter().any(|r| r.text.contains("c.mp ||"))).unwrap_or(false)).cloned().collect();
    let contracted = if np.is_some() { &total } else { contracted };
    let (sig, names, pre) = sig_text(k, f, &name, true)?;
    open_impl(o, f);
    o.ln("#[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]");
    let mut attrs = BTreeSet::new();
    for c in cs { for a in &c.attrs { if attrs.insert(a.clone()) { o.ln(a); } } }
    let st = o.line;
    o.ln(&sig);
    let maps: Vec<Vec<(String, String)>> = cs.iter().map(|c| { let mut m = std_map(f, &c.params, &names); m.push(("ENTRY".into(), format!("{:?}@", f.name)));
        // callback arguments are what the promise results decode to
        let mut ci = 0;
        for p in &f.params { if p.callback.is_some() { if let Pat::Ident(i) = &p.pat { let n = i.ident.to_string(); let t = ty_s(k, &p.ty, None).unwrap_or_default(); for x in m.iter_mut() { if x.1 == n { x.1 = format!("json_parse::<{t}>(old(w)@.c.results[{ci}]->Successful_0.s@)"); } } } ci += 1; } }
        m }).collect();
    let mut req = vec![];
    let mut ens = vec![];
    for (c, m) in cs.iter().zip(&maps) {
        for x in &c.req { if want(x, cfg) { req.push((x, m.clone())); } }
        for x in &c.ens { if want(x, cfg) { ens.push((x, m.clone())); } }
    }
    let mpr = if np.is_none() { "old(w)@.c.mp" } else { "!old(w)@.c.mp" };
    clauses(o, "  requires", &req, &[mpr.to_string(), "old(w)@.proms == Seq::<Prom>::empty()".into(), "old(w)@.ret == None::<nat>".into()], &format!("entry {}", f.name), "req");
    if cfg.canary { o.ln("  ensures false,"); } else { clauses(o, "  ensures", &ens, &["final(w)@.c == old(w)@.c".to_string()], &format!("entry {}", f.name), "ens"); }
    o.ln("{");
    let mut em = mk_em(k, con, cfg, contracted);
    em.self_ty = f.ty.clone();
    em.self_name = if f.recv.is_none() { "NONE".into() } else { "self".into() };
    em.stack = vec![format!("entry {}", f.key)];
    em.ret_ty = vec![f.ret.clone()];
    em.mut_self = matches!(f.recv, Some((true, true)));
    em.know_params(f);
    let mut t = String::new();
    t.push_str("BCAST__\nlet ghost w0__ = w@;\nproof { lit_facts(); }\n");
    let view = matches!(f.recv, Some((true, false))) || (f.recv.is_none() && !f.is_init);
    if f.ty.is_some() && !f.payable && !view { t.push_str("if !rt::eq(&rt::env::attached_deposit(w), &0u128) { rt::panic_(w); }\n"); }
    if f.private && !k.sdk.starts_with('2') { t.push_str("if !rt::eq(&rt::env::current_account_id(w), &rt::env::predecessor_account_id(w)) { rt::panic_(w); }\n"); }
    if f.is_init && !f.init_ignore && !k.sdk.starts_with('2') { t.push_str("if rt::env::state_exists(w) { rt::panic_(w); }\n"); }
    let mut ci = 0;
    for p in &f.params { if p.callback.is_some() { if let Pat::Ident(i) = &p.pat { t.push_str(&format!("let {}: {} = rt::callback(Ghost({ci}int), w);\n", i.ident, ty_s(k, &p.ty, f.ty.as_deref())?)); } ci += 1; } }
    t.push_str(&ghost_params(f));
    let sent = if np.is_some() || !con.nopanic.iter().any(|(n, c)| *n == f.name && c.ens.iter().chain(c.req.iter()).any(|x| want(x, cfg))) { arg_mismatch(k, con, f)? } else { vec![] };
    let mut at = vec![];
    for x in &sent { t.push('\n'); at.push((t.matches('\n').count(), x.clone())); t.push_str("proof { assert(false); }\n"); }
    for (c, m) in cs.iter().zip(&maps) { let hm = hint_map(f, m.clone()); for h in &c.pre { if want(h, cfg) { t.push_str(&format!("proof {{ {} }}\n", subst(&h.text, &hm))); } } }
    let rt = match &f.ret { Some(t) => format!(": {}", ty_s(k, t, f.ty.as_deref())?), None => String::new() };
    let body = if contracted.contains(&f.key) {
        let r = match (&f.recv, &f.ty) { (Some(_), _) => "self.".to_string(), (None, Some(t)) => format!("{t}::"), _ => String::new() };
        format!("{r}{}({}w)", f.name, join_c(&names))
    } else {
        em.pmap = vec![maps.first().cloned().unwrap_or_default()];
        // loop annotations refer to the contract's parameter names
        let mut pm = vec![];
        let cp = con.fns.get(&f.key).or(con.loops_only.get(&f.key)).map(|c| c.params.clone()).unwrap_or_default();
        for (i, p) in f.params.iter().enumerate() { if let (Some(c), Pat::Ident(id)) = (cp.get(i), &p.pat) { pm.push((c.clone(), if is_ref(p) { id.ident.to_string() } else { format!("g__{}", id.ident) })); } }
        match f.recv { Some((true, true)) => pm.push(("S0".into(), "(*old(self))".into())), Some((true, false)) => pm.push(("S0".into(), "(*self)".into())), Some(_) => pm.push(("S0".into(), "self".into())), None => {} }
        pm.push(("W0".into(), "w0__".into()));
        em.pmap = vec![pm];
        format!("{pre}{}", em.cps(&f.block.stmts)?)
    };
    t.push_str(&format!("let ret{rt} = {{\n{body}\n}};\n"));
    // a field left out of the stored state is its type's default at the next call
    let sf = if matches!(f.recv, Some((true, true))) { "self" } else if f.is_init { "ret" } else { "" };
    if !sf.is_empty() && !k.skipped.is_empty() {
        if f.is_init { t.push_str("let mut ret = ret;\n"); }
        for (n, x) in &k.skipped { t.push_str(&format!("{sf}.{n} = <{} as PDefault>::pdefault();\n", ty(k, x)?)); }
    }
    for (c, m) in cs.iter().zip(&maps) { let hm = hint_map(f, m.clone()); for h in &c.hint { if want(h, cfg) { t.push_str(&format!("proof {{ {} }}\n", subst(&h.text, &hm))); } } }
    t.push_str("ret");
    // what is lost when a call cannot be decoded is what is promised about this very call
    let own: BTreeSet<String> = cs.iter().filter(|c| np.is_some() || con.entries.get(&f.name).map(|v| v.iter().any(|x| std::ptr::eq(x, **c))).unwrap_or(false)).flat_map(|c| c.ens.iter().chain(c.req.iter()).flat_map(|x| x.tags.clone())).collect();
    let tags: BTreeSet<String> = if own.is_empty() { ens.iter().flat_map(|e| e.0.tags.clone()).collect() } else { own };
    for (i, x) in at { let l = o.line + i; o.map.push(json!({"kind": "ens", "fn": format!("entry {}", f.name), "line": l, "end": l, "tags": tags, "text": x})); }
    o.ln(&t);
    o.ln("}");
    let en = o.line;
    close_impl(o, f);
    o.map.push(json!({"kind": if cfg.canary { "canary" } else { "fn" }, "fn": if cfg.canary && np.is_some() { format!("nopanic {}", f.name) } else { format!("entry {}", f.name) }, "line": st, "end": en, "entry": true, "nopanic": np.is_some(),
        "obl_tags": ens.iter().flat_map(|e| e.0.tags.clone()).collect::<BTreeSet<_>>()}));
    let _: BTreeMap<String, String> = BTreeMap::new();
    Ok(())
}
