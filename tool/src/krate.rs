use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone)]
pub struct Param { pub pat: Pat, pub ty: Type, pub callback: Option<usize> }

#[derive(Clone)]
pub struct FnInfo {
    pub key: String, // Type::name or name
    pub ty: Option<String>,
    pub name: String,
    pub recv: Option<(bool, bool)>, // (reference, mutable)
    pub recv_mut_bind: bool,
    pub params: Vec<Param>,
    pub ret: Option<Type>,
    pub block: Block,
    pub exported: bool,
    pub is_init: bool,
    pub init_ignore: bool,
    pub payable: bool,
    pub private: bool,
    pub generics: bool,
    pub in_trait_impl: Option<String>,
}

#[derive(Clone)]
pub struct ExtTrait { pub module: String, pub methods: BTreeMap<String, Vec<(String, Type)>> }

pub struct ConstInfo { pub path: Vec<String>, pub ty: Type, pub expr: Expr }

pub struct Krate {
    pub sdk: String,
    pub types: Vec<Item>,                  // struct / enum / type
    pub fns: BTreeMap<String, FnInfo>,     // by key
    pub by_name: BTreeMap<String, Vec<String>>, // method/fn name -> keys
    pub consts: Vec<ConstInfo>,
    pub exts: BTreeMap<String, ExtTrait>,
    pub defaults: BTreeMap<String, Block>,
    pub froms: Vec<(String, Type, FnInfo)>, // target type, source type, fn
    pub contract_ty: Option<String>,
    pub skipped: BTreeMap<String, Type>,
    pub macros: Vec<Macro>,
    pub deps: BTreeSet<String>,            // dependency files extracted along with the crate
    pub lock: String,
    pub feats: BTreeSet<String>,           // default features
    pub local_types: BTreeSet<String>,     // declared inside a function
    pub type_names: BTreeSet<String>,
    pub uses: Vec<String>,
}

/// Is the item left out of the wasm32 build with default features?
fn cfg_out(attrs: &[Attribute], feats: &BTreeSet<String>) -> R<bool> {
    fn eval(m: &Meta, feats: &BTreeSet<String>) -> R<bool> {
        let list = |l: &MetaList| -> R<Vec<Meta>> { l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).map_err(|e| e.to_string()) };
        let n = last_seg(m.path());
        Ok(match m {
            Meta::Path(_) => match n.as_str() { "test" | "debug_assertions" | "windows" | "unix" => false, _ => return Err(format!("unsupported construct: conditional compilation {n}")) },
            Meta::NameValue(v) => {
                let x = match &v.value { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => String::new() };
                match n.as_str() { "target_arch" => x == "wasm32", "feature" => feats.contains(&x), _ => return Err(format!("unsupported construct: conditional compilation {n}")) }
            }
            Meta::List(l) => {
                let v = list(l)?.iter().map(|x| eval(x, feats)).collect::<R<Vec<bool>>>()?;
                match n.as_str() { "not" => !v[0], "all" => v.iter().all(|x| *x), "any" => v.iter().any(|x| *x), _ => return Err(format!("unsupported construct: conditional compilation {n}")) }
            }
        })
    }
    for a in attrs {
        if a.path().is_ident("test") { return Ok(true); }
        if a.path().is_ident("cfg") {
            let m: Meta = a.parse_args().map_err(|e| e.to_string())?;
            if !eval(&m, feats)? { return Ok(true); }
        }
    }
    Ok(false)
}

pub fn has_attr(attrs: &[Attribute], n: &str) -> bool {
    attrs.iter().any(|a| a.path().segments.last().map(|s| s.ident == n).unwrap_or(false))
}

pub fn derives(attrs: &[Attribute], n: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == n))
}

pub fn last_seg(p: &syn::Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }

pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => last_seg(&p.path),
        Type::Reference(r) => ty_name(&r.elem),
        Type::Paren(p) => ty_name(&p.elem),
        _ => t.to_token_stream().to_string(),
    }
}

const RESERVED: &[&str] = &[
    "w", "spec", "proof", "ghost", "tracked", "requires", "ensures", "invariant", "decreases", "exec", "open", "closed",
    "choose", "forall", "exists", "assert", "assume", "via", "when", "by", "is", "has", "old", "recommends", "broadcast",
    "reveal", "implies", "returns", "rt", "ret", "calc",
    "uninterp", "invariant_except_break", "final",
];

struct Rename;
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        if RESERVED.contains(&s.as_str()) || s.starts_with("r#") {
            *i = Ident::new(&format!("{}_u", s.trim_start_matches("r#")), i.span());
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // macro bodies are token streams; rename inside them too
        fn go(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            let v: Vec<_> = ts.into_iter().collect();
            let bang: Vec<bool> = (0..v.len()).map(|i| matches!(v.get(i + 1), Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == '!')).collect();
            v.into_iter().zip(bang).map(|(t, b)| match t {
                proc_macro2::TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream()));
                    n.set_span(g.span());
                    proc_macro2::TokenTree::Group(n)
                }
                proc_macro2::TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if RESERVED.contains(&s.as_str()) && !b { proc_macro2::TokenTree::Ident(Ident::new(&format!("{s}_u"), i.span())) } else { proc_macro2::TokenTree::Ident(i) }
                }
                x => x,
            }).collect()
        }
        m.tokens = go(m.tokens.clone());
    }
}

fn default_features(toml: &str) -> BTreeSet<String> {
    let Some(sec) = toml.split("\n[features]").nth(1) else { return BTreeSet::new() };
    let sec = sec.split("\n[").next().unwrap();
    for l in sec.lines() { if l.trim_start().starts_with("default") { return l.split('"').skip(1).step_by(2).map(|s| s.to_string()).collect(); } }
    BTreeSet::new()
}

impl Krate {
    pub fn load(repo: &str, name: &str) -> R<Krate> {
        let root = Path::new(repo).join(name);
        let toml = std::fs::read_to_string(root.join("Cargo.toml")).map_err(|e| format!("{name}/Cargo.toml: {e}"))?;
        let mut sdk = String::new();
        for l in toml.lines() {
            let l = l.trim();
            if l.starts_with("near-sdk") && l.contains('=') {
                sdk = l.split('=').skip(1).collect::<Vec<_>>().join("=").trim().trim_matches(|c: char| !c.is_ascii_digit()).to_string();
                if let Some(i) = l.find("version") { sdk = l[i..].split('"').nth(1).unwrap_or("").to_string(); }
                else if let Some(v) = l.split('"').nth(1) { sdk = v.trim_start_matches('=').to_string(); }
                break;
            }
        }
        let mut k = Krate {
            sdk, types: vec![], fns: BTreeMap::new(), by_name: BTreeMap::new(), consts: vec![], exts: BTreeMap::new(),
            defaults: BTreeMap::new(), froms: vec![], contract_ty: None, skipped: BTreeMap::new(), macros: vec![], deps: BTreeSet::new(), lock: String::new(), feats: default_features(&toml), local_types: BTreeSet::new(), type_names: BTreeSet::new(), uses: vec![],
        };
        k.lock = std::fs::read_to_string(root.join("Cargo.lock")).unwrap_or_default();
        k.file(&root.join("src/lib.rs"), &root.join("src"), &[])?;
        for (key, f) in &k.fns { k.by_name.entry(f.name.clone()).or_default().push(key.clone()); }
        Ok(k)
    }

    fn file(&mut self, f: &Path, dir: &PathBuf, modp: &[String]) -> R<()> {
        let src = std::fs::read_to_string(f).map_err(|e| format!("{}: {e}", f.display()))?;
        let mut ast = syn::parse_file(&src).map_err(|e| format!("{}: {e}", f.display()))?;
        Rename.visit_file_mut(&mut ast);
        let mut ms = crate::pre::Macros::of(&ast);
        ms.visit_file_mut(&mut ast);
        if let Some(e) = ms.err { return Err(e); }
        crate::pre::Closures.visit_file_mut(&mut ast);
        self.items(ast.items, dir, modp)
    }

    /// Items declared inside a function are treated like the module's own; their names must not clash.
    fn hoist(&mut self, b: &mut Block, dir: &PathBuf, modp: &[String]) -> R<()> {
        struct H(Vec<Item>);
        impl VisitMut for H {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let v = std::mem::take(&mut b.stmts);
                for s in v { match s { Stmt::Item(Item::Use(_)) => {} Stmt::Item(i) => self.0.push(i), s => b.stmts.push(s) } }
                visit_mut::visit_block_mut(self, b);
            }
        }
        let mut h = H(vec![]);
        h.visit_block_mut(b);
        for mut i in h.0 {
            let n = match &i { Item::Struct(s) => s.ident.to_string(), Item::Enum(s) => s.ident.to_string(), Item::Const(c) => c.ident.to_string(), Item::Fn(f) => f.sig.ident.to_string(), _ => return Err("unsupported construct: local item".into()) };
            if self.type_names.contains(&n) || self.fns.contains_key(&n) || self.consts.iter().any(|c| c.path.last() == Some(&n)) { return Err(format!("unsupported construct: local item {n} hides another")); }
            if let Item::Struct(s) = &mut i {
                // borrowed input data becomes owned data
                struct L;
                impl VisitMut for L { fn visit_type_mut(&mut self, t: &mut Type) { while let Type::Reference(r) = t { *t = (*r.elem).clone(); } visit_mut::visit_type_mut(self, t); } }
                L.visit_fields_mut(&mut s.fields);
                self.local_types.insert(n);
            }
            self.items(vec![i], dir, modp)?;
        }
        Ok(())
    }

    /// The contract code of near-contract-standards at the locked version is extracted like the crate's own.
    fn standards(&mut self) -> R<PathBuf> {
        let v = self.lock.split("[[package]]").find(|p| p.contains("name = \"near-contract-standards\"")).and_then(|p| p.split("version = \"").nth(1)).and_then(|p| p.split('"').next()).ok_or("near-contract-standards is not in Cargo.lock")?.to_string();
        let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())));
        let mut dirs: Vec<PathBuf> = std::fs::read_dir(format!("{home}/registry/src")).map_err(|e| e.to_string())?.filter_map(|d| d.ok()).map(|d| d.path().join(format!("near-contract-standards-{v}")).join("src")).filter(|p| p.exists()).collect();
        dirs.sort();
        let d = dirs.first().ok_or(format!("no source of near-contract-standards {v}"))?.clone();
        if self.deps.insert("near-contract-standards".into()) {
            for f in ["fungible_token/core_impl.rs", "fungible_token/storage_impl.rs", "fungible_token/metadata.rs", "storage_management/mod.rs"] {
                self.deps.insert(format!("near-contract-standards-{v}/src/{f}"));
                self.file(&d.join(f), &d, &["near_contract_standards".to_string()])?;
            }
        }
        Ok(d)
    }

    /// Expands one of near-contract-standards' item macros (macro_rules with ident and block parameters).
    fn expand(&mut self, name: &str, args: proc_macro2::TokenStream) -> R<proc_macro2::TokenStream> {
        use proc_macro2::{Delimiter, TokenStream, TokenTree as T};
        let d = self.standards()?;
        let src = std::fs::read_to_string(d.join("fungible_token/macros.rs")).map_err(|e| e.to_string())?;
        let f = syn::parse_file(&src).map_err(|e| e.to_string())?;
        let m = f.items.into_iter().find_map(|i| match i { Item::Macro(m) if m.ident.as_ref().map(|x| x == name).unwrap_or(false) => Some(m.mac.tokens), _ => None }).ok_or(format!("unsupported construct: macro {name}!"))?;
        let toks: Vec<T> = m.into_iter().collect();
        let groups: Vec<proc_macro2::Group> = toks.into_iter().filter_map(|t| if let T::Group(g) = t { Some(g) } else { None }).collect();
        let args: Vec<T> = args.into_iter().collect();
        'rule: for r in groups.chunks(2) {
            if r.len() < 2 { break; }
            let pat: Vec<T> = r[0].stream().into_iter().collect();
            let mut env: BTreeMap<String, T> = BTreeMap::new();
            let (mut i, mut j) = (0, 0);
            while i < pat.len() {
                let is_d = matches!(&pat[i], T::Punct(p) if p.as_char() == '$');
                if is_d {
                    let (T::Ident(n), T::Ident(kind)) = (&pat[i + 1], &pat[i + 3]) else { return Err("unsupported construct: macro pattern".into()) };
                    let ok = match (kind.to_string().as_str(), args.get(j)) { ("ident", Some(T::Ident(_))) => true, ("block", Some(T::Group(g))) => g.delimiter() == Delimiter::Brace, _ => false };
                    if !ok { continue 'rule; }
                    env.insert(n.to_string(), args[j].clone());
                    i += 4; j += 1;
                } else {
                    if args.get(j).map(|a| a.to_string()) != Some(pat[i].to_string()) { continue 'rule; }
                    i += 1; j += 1;
                }
            }
            if j != args.len() { continue 'rule; }
            fn sub(ts: TokenStream, env: &BTreeMap<String, T>) -> TokenStream {
                let v: Vec<T> = ts.into_iter().collect();
                let mut o = vec![];
                let mut i = 0;
                while i < v.len() {
                    match (&v[i], v.get(i + 1)) {
                        (T::Punct(p), Some(T::Ident(n))) if p.as_char() == '$' && env.contains_key(&n.to_string()) => { o.push(env[&n.to_string()].clone()); i += 2; }
                        (T::Group(g), _) => { let mut n = proc_macro2::Group::new(g.delimiter(), sub(g.stream(), env)); n.set_span(g.span()); o.push(T::Group(n)); i += 1; }
                        _ => { o.push(v[i].clone()); i += 1; }
                    }
                }
                o.into_iter().collect()
            }
            return Ok(sub(r[1].stream(), &env));
        }
        Err(format!("unsupported construct: no rule of {name}! matches"))
    }

    fn items(&mut self, items: Vec<Item>, dir: &PathBuf, modp: &[String]) -> R<()> {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if cfg_out(&m.attrs, &self.feats)? { continue; }
                    let n = m.ident.to_string();
                    let mut mp = modp.to_vec();
                    mp.push(n.clone());
                    if let Some((_, its)) = m.content {
                        self.items(its, &dir.join(&n), &mp)?;
                    } else {
                        let a = dir.join(format!("{n}.rs"));
                        let b = dir.join(&n).join("mod.rs");
                        if a.exists() { self.file(&a, &dir.join(&n), &mp)?; } else { self.file(&b, &dir.join(&n), &mp)?; }
                    }
                }
                Item::Use(u) => { self.uses.push(u.tree.to_token_stream().to_string()); }
                Item::Const(c) => {
                    if cfg_out(&c.attrs, &self.feats)? { continue; }
                    let mut p = modp.to_vec();
                    p.push(c.ident.to_string());
                    self.consts.push(ConstInfo { path: p, ty: *c.ty, expr: *c.expr });
                }
                Item::Static(_) | Item::ExternCrate(_) => {}
                Item::Struct(s) => {
                    if cfg_out(&s.attrs, &self.feats)? { continue; }
                    if has_attr(&s.attrs, "near_bindgen") { self.contract_ty = Some(s.ident.to_string()); }
                    // what is not written to the state comes back as the default
                    for f in &s.fields { for a in &f.attrs { if last_seg(a.path()).starts_with("borsh") {
                        match &f.ident { Some(i) if a.path().is_ident("borsh_skip") && has_attr(&s.attrs, "near_bindgen") => { self.skipped.insert(i.to_string(), f.ty.clone()); } _ => return Err(format!("unsupported construct: borsh attribute on a field of {}", s.ident)) }
                    } } }
                    self.type_names.insert(s.ident.to_string());
                    self.types.push(Item::Struct(s));
                }
                Item::Enum(s) => { if cfg_out(&s.attrs, &self.feats)? { continue; }
                    if s.variants.iter().any(|v| v.fields.iter().flat_map(|f| &f.attrs).chain(&v.attrs).any(|a| last_seg(a.path()).starts_with("borsh"))) { return Err(format!("unsupported construct: borsh attribute in {}", s.ident)); }
                    self.type_names.insert(s.ident.to_string()); self.types.push(Item::Enum(s)); }
                Item::Type(t) => { if cfg_out(&t.attrs, &self.feats)? { continue; } self.type_names.insert(t.ident.to_string()); self.types.push(Item::Type(t)); }
                Item::Macro(m) => {
                    if cfg_out(&m.attrs, &self.feats)? { continue; }
                    if last_seg(&m.mac.path) == "compile_error" { continue; }
                    if m.ident.is_some() { continue; } // its calls have been expanded
                    let segs: Vec<String> = m.mac.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.first().map(|s| s == "near_contract_standards").unwrap_or(false) || segs.last().map(|s| s.starts_with("impl_fungible_token")).unwrap_or(false) {
                        self.standards()?;
                        let text = self.expand(&last_seg(&m.mac.path), m.mac.tokens.clone())?;
                        let mut ast: File = parse2(text).map_err(|e| format!("unsupported construct: expansion of {}: {e}", last_seg(&m.mac.path)))?;
                        Rename.visit_file_mut(&mut ast);
                        self.items(ast.items, dir, modp)?;
                    } else { self.macros.push(m.mac); }
                }
                Item::Trait(t) => {
                    if cfg_out(&t.attrs, &self.feats)? { continue; }
                    if let Some(a) = t.attrs.iter().find(|a| a.path().is_ident("ext_contract")) {
                        let module = match &a.meta {
                            Meta::List(l) => l.tokens.to_string(),
                            _ => t.ident.to_string(),
                        };
                        let mut methods = BTreeMap::new();
                        for i in &t.items {
                            if let TraitItem::Fn(f) = i {
                                let mut ps = vec![];
                                for a in &f.sig.inputs {
                                    if let FnArg::Typed(p) = a {
                                        if has_attr(&p.attrs, "callback") || has_attr(&p.attrs, "callback_vec") { continue; }
                                        if let Pat::Ident(id) = &*p.pat { ps.push((id.ident.to_string(), (*p.ty).clone())); }
                                    }
                                }
                                methods.insert(f.sig.ident.to_string(), ps);
                            }
                        }
                        self.exts.insert(module.clone(), ExtTrait { module, methods });
                    }
                }
                Item::Impl(i) => self.impl_(i, dir, modp)?,
                Item::Fn(mut f) => {
                    if cfg_out(&f.attrs, &self.feats)? { continue; }
                    self.hoist(&mut f.block, dir, modp)?;
                    let ext = f.attrs.iter().any(|a| a.path().is_ident("no_mangle"));
                    let mut fi = mk_fn(None, &f.sig, &f.block, &f.attrs)?;
                    fi.exported = ext;
                    self.fns.insert(fi.key.clone(), fi);
                }
                _ => return Err("unsupported construct: item".into()),
            }
        }
        Ok(())
    }

    fn impl_(&mut self, i: ItemImpl, dir: &PathBuf, modp: &[String]) -> R<()> {
        if cfg_out(&i.attrs, &self.feats)? { return Ok(()); }
        let ty = ty_name(&i.self_ty);
        let tr = i.trait_.as_ref().map(|(_, p, _)| last_seg(p));
        let bind = has_attr(&i.attrs, "near_bindgen");
        if let Some(t) = &tr {
            match t.as_str() {
                "Default" => {
                    for x in i.items { if let ImplItem::Fn(f) = x { self.defaults.insert(ty.clone(), f.block); } }
                    return Ok(());
                }
                "From" => {
                    let src = match &i.trait_.as_ref().unwrap().1.segments.last().unwrap().arguments {
                        PathArguments::AngleBracketed(a) => match a.args.first() { Some(GenericArgument::Type(t)) => t.clone(), _ => return Err("From args".into()) },
                        _ => return Err("From args".into()),
                    };
                    for x in i.items {
                        if let ImplItem::Fn(f) = x {
                            let mut fi = mk_fn(Some(&ty), &f.sig, &f.block, &f.attrs)?;
                            fi.key = format!("{ty}::from_{}", ty_name(&src));
                            self.froms.push((ty.clone(), src.clone(), fi));
                        }
                    }
                    return Ok(());
                }
                "Drop" | "Deref" | "DerefMut" | "Index" | "IndexMut" | "Add" | "Sub" | "Mul" | "Div" | "PartialEq" | "PartialOrd" | "Ord" | "Eq" | "Hash" | "Clone" | "BorshSerialize" | "BorshDeserialize" | "Serialize" | "Deserialize" | "FromStr" | "TryFrom" | "Iterator" | "IntoIterator" =>
                    return Err(format!("unsupported construct: impl {t} for {ty}")),
                _ => {}
            }
        }
        for x in i.items {
            match x {
                ImplItem::Fn(mut f) => {
                    if cfg_out(&f.attrs, &self.feats)? { continue; }
                    self.hoist(&mut f.block, dir, modp)?;
                    let mut fi = mk_fn(Some(&ty), &f.sig, &f.block, &f.attrs)?;
                    fi.exported = bind && (tr.is_some() || matches!(f.vis, Visibility::Public(_)));
                    fi.in_trait_impl = tr.clone();
                    if self.fns.contains_key(&fi.key) { return Err(format!("unsupported construct: duplicate function {}", fi.key)); }
                    self.fns.insert(fi.key.clone(), fi);
                }
                ImplItem::Const(c) => {
                    self.consts.push(ConstInfo { path: vec![ty.clone(), c.ident.to_string()], ty: c.ty, expr: c.expr });
                }
                ImplItem::Type(_) => {}
                _ => return Err("unsupported construct: impl item".into()),
            }
        }
        Ok(())
    }
}

fn mk_fn(ty: Option<&str>, sig: &Signature, block: &Block, attrs: &[Attribute]) -> R<FnInfo> {
    let name = sig.ident.to_string();
    let mut recv = None;
    let mut rmb = false;
    let mut params = vec![];
    let mut cb = 0;
    if sig.asyncness.is_some() || sig.unsafety.is_some() { return Err(format!("unsupported construct: async/unsafe fn {name}")); }
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => { recv = Some((r.reference.is_some(), r.mutability.is_some() && r.reference.is_some())); rmb = r.mutability.is_some() && r.reference.is_none(); }
            FnArg::Typed(p) => {
                let callback = if has_attr(&p.attrs, "callback") { cb += 1; Some(cb - 1) } else { None };
                if has_attr(&p.attrs, "callback_vec") || has_attr(&p.attrs, "callback_result") || has_attr(&p.attrs, "callback_unwrap") { return Err("unsupported construct: callback_vec".into()); }
                params.push(Param { pat: (*p.pat).clone(), ty: (*p.ty).clone(), callback });
            }
        }
    }
    let ret = match &sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some((**t).clone()) };
    let mut is_init = false; let mut ign = false;
    for a in attrs {
        if a.path().is_ident("init") { is_init = true; if a.meta.to_token_stream().to_string().contains("ignore_state") { ign = true; } }
        let n = last_seg(a.path());
        if !["init", "payable", "private", "doc", "inline", "allow", "no_mangle", "near_bindgen", "must_use", "cold", "rustfmt", "result_serializer", "warn", "deprecated", "cfg", "alloc_error_handler", "panic_handler", "global_allocator"].contains(&n.as_str()) && a.path().segments.first().map(|s| s.ident != "rustfmt").unwrap_or(true) {
            return Err(format!("unsupported construct: attribute {n} on {name}"));
        }
    }
    Ok(FnInfo {
        key: match ty { Some(t) => format!("{t}::{name}"), None => name.clone() },
        ty: ty.map(|s| s.to_string()), name, recv, recv_mut_bind: rmb, params, block: crate::norm::block(block, ret.as_ref()), ret,
        exported: false, is_init, init_ignore: ign, payable: has_attr(attrs, "payable"), private: has_attr(attrs, "private"),
        generics: !sig.generics.params.is_empty(), in_trait_impl: None,
    })
}
