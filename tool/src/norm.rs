//! Meaning-preserving rewrites of a function body before emission: reference patterns and let-else.
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct N { n: usize }

fn deref(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
        Expr::Paren(p) => deref(&p.expr),
        _ => parse_quote!(*(#e)),
    }
}
fn strip(p: &Pat) -> Option<Pat> {
    match p {
        Pat::Reference(r) if r.mutability.is_none() => Some((*r.pat).clone()),
        Pat::Paren(p) => strip(&p.pat),
        Pat::Or(o) => { let mut o = o.clone(); for c in o.cases.iter_mut() { *c = strip(c)?; } Some(Pat::Or(o)) }
        _ => None,
    }
}

/// `match x { p if g => a, rest }` becomes `match x { p => if g { a } else { match x { rest } }, rest }` when the guard calls
/// something (Verus loses track of `&mut` variables that a guard borrows).
struct Guards { n: usize }
fn unguard(sc: &Expr, arms: &[Arm]) -> Expr {
    let Some(i) = arms.iter().position(|a| a.guard.is_some()) else { return parse_quote!(match #sc { #(#arms)* }) };
    let mut rest = arms.to_vec();
    let a = rest.remove(i);
    let (p, b, g) = (&a.pat, &a.body, &a.guard.as_ref().unwrap().1);
    let inner = unguard(sc, &rest);
    let new: Arm = parse_quote!(#p => { if #g { #b } else { #inner } });
    let after: Vec<Arm> = { let Expr::Match(m) = unguard(sc, &rest) else { unreachable!() }; m.arms };
    let mut arms2 = after;
    // earlier arms have no guard; the new arm keeps its place
    arms2.insert(i.min(arms2.len()), new);
    parse_quote!(match #sc { #(#arms2)* })
}
fn has_call(e: &Expr) -> bool {
    struct H(bool);
    impl<'a> visit::Visit<'a> for H {
        fn visit_expr_call(&mut self, _: &'a ExprCall) { self.0 = true; }
        fn visit_expr_method_call(&mut self, _: &'a ExprMethodCall) { self.0 = true; }
        fn visit_expr_macro(&mut self, _: &'a ExprMacro) { self.0 = true; }
    }
    let mut h = H(false);
    visit::Visit::visit_expr(&mut h, e);
    h.0
}
fn plain(e: &Expr) -> bool {
    match e { Expr::Path(_) => true, Expr::Field(f) => plain(&f.base), Expr::Paren(p) => plain(&p.expr), Expr::Reference(r) => plain(&r.expr), Expr::Unary(u) => plain(&u.expr), _ => false }
}
impl VisitMut for Guards {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = e {
            if m.arms.iter().any(|a| a.guard.as_ref().map(|g| has_call(&g.1)).unwrap_or(false)) {
                let arms = &m.arms;
                if plain(&m.expr) { *e = unguard(&m.expr, arms); }
                else {
                    let id = quote::format_ident!("sc__{}", self.n); self.n += 1;
                    let x = &m.expr;
                    let y = unguard(&parse_quote!(#id), arms);
                    *e = parse_quote!({ let #id = #x; #y });
                }
            }
        }
    }
}

impl VisitMut for N {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if let Some(i) = b.stmts.iter().position(|s| matches!(s, Stmt::Local(l) if l.init.as_ref().map(|x| x.diverge.is_some()).unwrap_or(false))) {
            if let Stmt::Local(l) = b.stmts[i].clone() {
                let init = l.init.unwrap();
                let (p, e, d) = (l.pat, *init.expr, *init.diverge.unwrap().1);
                let rest: Vec<Stmt> = b.stmts.split_off(i + 1);
                b.stmts.pop();
                let m: Expr = parse_quote!(match #e { #p => { #(#rest)* } _ => #d });
                b.stmts.push(Stmt::Expr(m, None));
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_let_mut(&mut self, l: &mut ExprLet) {
        if let Some(p) = strip(&l.pat) { l.pat = Box::new(p); l.expr = Box::new(deref(&l.expr)); }
        visit_mut::visit_expr_let_mut(self, l);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Some(p), Some(i)) = (strip(&l.pat), l.init.as_mut()) { l.pat = p; i.expr = Box::new(deref(&i.expr)); }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let any = m.arms.iter().any(|a| strip(&a.pat).is_some());
        let ok = m.arms.iter().all(|a| strip(&a.pat).is_some() || matches!(a.pat, Pat::Wild(_)));
        if any && ok {
            for a in m.arms.iter_mut() { if let Some(p) = strip(&a.pat) { a.pat = p; } }
            m.expr = Box::new(deref(&m.expr));
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        for p in c.inputs.iter_mut() {
            if let Some(q) = strip(p) {
                let id = quote::format_ident!("r__{}", self.n); self.n += 1;
                let b = &c.body;
                let nb: Expr = parse_quote!({ let #q = *#id; #b });
                c.body = Box::new(nb);
                *p = parse_quote!(#id);
            }
        }
        visit_mut::visit_expr_closure_mut(self, c);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        if let Some(q) = strip(&f.pat) {
            let id = quote::format_ident!("r__{}", self.n); self.n += 1;
            f.pat = Box::new(parse_quote!(#id));
            f.body.stmts.insert(0, parse_quote!(let #q = *#id;));
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
}

/// Loops: `while let` becomes `loop` + `match`; a return from inside a loop becomes a break followed by a return after it.
struct Loops { n: usize, opt: bool, res: bool }
fn returns(b: &Block) -> bool {
    struct H(bool);
    impl<'a> visit::Visit<'a> for H {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut h = H(false);
    visit::Visit::visit_block(&mut h, b);
    h.0
}
struct RetBreak { id: Ident, opt: bool, res: bool, ok: bool }
impl VisitMut for RetBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let id = &self.id;
        match e {
            Expr::Return(r) => {
                let v: Expr = match &r.expr { Some(x) => (**x).clone(), None => parse_quote!(()) };
                *e = parse_quote!({ #id = Some(#v); break; });
            }
            Expr::Try(t) => {
                let x = &t.expr;
                if self.opt { *e = parse_quote!(match #x { Some(v__) => v__, None => { #id = Some(None); break; } }); }
                else if self.res { *e = parse_quote!(match #x { Ok(v__) => v__, Err(e__) => { #id = Some(Err(e__)); break; } }); }
                else { self.ok = false; }
            }
            _ => {}
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_label_mut(&mut self, _: &mut Label) { self.ok = false; }
    // inner loops were rewritten before: they contain no return any more
}
fn irrefutable(p: &Pat) -> bool { match p { Pat::Ident(i) => i.subpat.is_none() && i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_'), Pat::Wild(_) => true, Pat::Tuple(t) => t.elems.iter().all(irrefutable), Pat::Reference(r) => irrefutable(&r.pat), Pat::Paren(q) => irrefutable(&q.pat), Pat::Type(t) => irrefutable(&t.pat), _ => false } }
impl Loops {
    fn body<'b>(e: &'b mut Expr) -> Option<&'b mut Block> { match e { Expr::ForLoop(f) if f.label.is_none() => Some(&mut f.body), Expr::While(f) if f.label.is_none() => Some(&mut f.body), Expr::Loop(f) if f.label.is_none() => Some(&mut f.body), _ => None } }
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `while let Some(p) = it.next() { b }` and `loop { match it.next() { Some(p) => b, None => break } }` over a local iterator
        // run b on each item that is left: `for p in it.by_ref() { b }`
        let plain = |p: &Pat, x: &Expr| -> Option<(Pat, Ident)> {
            if let (Pat::TupleStruct(t), Expr::MethodCall(m)) = (p, x) { if t.path.is_ident("Some") && t.elems.len() == 1 && m.method == "next" && m.args.is_empty() && irrefutable(&t.elems[0]) {
                if let Expr::Path(q) = &*m.receiver { if let Some(i) = q.path.get_ident() { if i != "self" { return Some((t.elems[0].clone(), i.clone())); } } }
            } }
            None
        };
        if let Expr::While(wl) = e {
            if let (Expr::Let(l), None) = (&*wl.cond, &wl.label) {
                let (p, x, b) = (&l.pat, &l.expr, &wl.body);
                *e = match plain(p, x) { Some((q, i)) => parse_quote!(for #q in #i.by_ref() #b), None => parse_quote!(loop { match #x { #p => #b, _ => { break; } } }) };
            }
        }
        if let Expr::Loop(lp) = e {
            if let (None, [Stmt::Expr(Expr::Match(m), _)]) = (&lp.label, &lp.body.stmts[..]) {
                if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) && matches!(&m.arms[1].pat, Pat::Wild(_) | Pat::Ident(_) | Pat::Path(_)) {
                    let brk = match &*m.arms[1].body { Expr::Break(b) => b.label.is_none() && b.expr.is_none(), Expr::Block(b) => matches!(&b.block.stmts[..], [Stmt::Expr(Expr::Break(b), _)] if b.label.is_none() && b.expr.is_none()), _ => false };
                    if let (true, Some((q, i))) = (brk, plain(&m.arms[0].pat, &m.expr)) {
                        let b = &m.arms[0].body;
                        *e = match &**b { Expr::Block(bb) if bb.label.is_none() => { let bb = &bb.block; parse_quote!(for #q in #i.by_ref() #bb) } _ => parse_quote!(for #q in #i.by_ref() { #b; }) };
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            let last = i + 1 == b.stmts.len();
            let (is_loop, tail) = match &b.stmts[i] { Stmt::Expr(e, semi) => (matches!(e, Expr::Loop(_)), last && semi.is_none()), _ => (false, false) };
            if let Stmt::Expr(e, _) = &mut b.stmts[i] {
                if let Some(body) = Loops::body(e) {
                    if returns(body) {
                        let id = quote::format_ident!("retl__{}", self.n); self.n += 1;
                        let mut r = RetBreak { id: id.clone(), opt: self.opt, res: self.res, ok: true };
                        r.visit_block_mut(body);
                        if !r.ok { i += 1; continue; }
                        if let Stmt::Expr(_, s) = &mut b.stmts[i] { *s = None; }
                        if is_loop && tail { b.stmts.insert(i + 1, Stmt::Expr(parse_quote!(match #id { Some(v__) => v__, None => panic!() }), None)); }
                        else { b.stmts.insert(i + 1, Stmt::Expr(parse_quote!(if let Some(v__) = #id { return v__; }), None)); }
                        b.stmts.insert(i, parse_quote!(let mut #id = None;));
                        i += 2;
                    }
                }
            }
            i += 1;
        }
    }
}

pub fn block(b: &Block, ret: Option<&Type>) -> Block {
    let mut b = b.clone();
    let rn = |n: &str| matches!(ret, Some(Type::Path(p)) if p.path.segments.last().map(|s| s.ident == n).unwrap_or(false));
    Guards { n: 0 }.visit_block_mut(&mut b);
    Loops { n: 0, opt: rn("Option"), res: rn("Result") }.visit_block_mut(&mut b);
    // a buffer the host writes through a raw pointer is a mutable local
    struct B(Vec<String>);
    impl<'a> visit::Visit<'a> for B { fn visit_expr_call(&mut self, c: &'a ExprCall) { if let Expr::Path(p) = &*c.func { if p.path.segments.last().map(|s| s.ident == "read_register").unwrap_or(false) { if let Some(i) = crate::emit::sys_buffer(c) { self.0.push(i.to_string()); } } } visit::visit_expr_call(self, c); } }
    let mut v = B(vec![]);
    visit::Visit::visit_block(&mut v, &b);
    struct M(Vec<String>);
    impl VisitMut for M { fn visit_local_mut(&mut self, l: &mut Local) { if let Pat::Ident(i) = &mut l.pat { if self.0.contains(&i.ident.to_string()) { i.mutability = Some(Default::default()); } } visit_mut::visit_local_mut(self, l); } }
    M(v.0).visit_block_mut(&mut b);
    N { n: 0 }.visit_block_mut(&mut b);
    b
}
