//! Thread-local statics and locks of one file, threaded as an explicit `&mut` parameter.
//!
//! `X.with(|p| body)` is `body` with `p` standing for `tl.X`; RefCell and lock guards disappear
//! (what they guard is exclusively ours while the function runs). DESIGN.md, "Extraction".
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Item, Pat, Stmt};

#[derive(Clone, Default)]
pub struct Locals {
    pub file: String,
    pub strct: String,
    pub param: String,
    /// name, type, initial value
    pub fields: Vec<(String, syn::Type, Expr)>,
    pub overrides: BTreeMap<String, String>,
    /// functions of the file that reach a thread-local, with the local that a parameter stands for
    pub users: BTreeMap<String, Option<(usize, String)>>,
}

fn refcell(t: &syn::Type) -> Option<syn::Type> {
    if let syn::Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "RefCell" {
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                    return Some(t.clone());
                }
            }
        }
    }
    None
}

struct Uses<'a> {
    names: &'a BTreeSet<String>,
    hit: bool,
}
impl<'ast> Visit<'ast> for Uses<'_> {
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if let Some(i) = p.get_ident() {
            if self.names.contains(&i.to_string()) {
                self.hit = true;
            }
        }
        syn::visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.tokens(m.tokens.clone());
    }
}
impl Uses<'_> {
    fn tokens(&mut self, t: proc_macro2::TokenStream) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                proc_macro2::TokenTree::Ident(i) if self.names.contains(&i.to_string()) => self.hit = true,
                _ => {}
            }
        }
    }
}

pub fn collect(file: &syn::File, l: &mut Locals) -> Result<(), String> {
    for it in &file.items {
        if let Item::Macro(m) = it {
            if m.mac.path.segments.last().is_some_and(|s| s.ident == "thread_local") {
                let parse = |s: syn::parse::ParseStream| -> syn::Result<Vec<syn::ItemStatic>> {
                    let mut v = vec![];
                    while !s.is_empty() {
                        v.push(s.parse()?);
                    }
                    Ok(v)
                };
                use syn::parse::Parser;
                let statics = parse.parse2(m.mac.tokens.clone()).map_err(|e| format!("thread_local: {e}"))?;
                for s in statics {
                    let t = refcell(&s.ty).ok_or_else(|| format!("{}: no RefCell", s.ident))?;
                    let mut init = (*s.expr).clone();
                    if let Expr::Const(c) = &init {
                        if let [Stmt::Expr(e, None)] = &c.block.stmts[..] {
                            init = e.clone();
                        }
                    }
                    let v = match &init {
                        Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "") == "RefCell::new" => c.args[0].clone(),
                        _ => return Err(format!("{}: initial value", s.ident)),
                    };
                    l.fields.push((s.ident.to_string(), t, v));
                }
            }
        }
    }
    let names: BTreeSet<String> = l.fields.iter().map(|f| f.0.clone()).collect();
    let mut users: BTreeSet<String> = BTreeSet::new();
    loop {
        let n = users.len();
        for it in &file.items {
            if let Item::Fn(f) = it {
                let all: BTreeSet<String> = names.union(&users).cloned().collect();
                let mut u = Uses { names: &all, hit: false };
                u.visit_block(&f.block);
                if u.hit {
                    users.insert(f.sig.ident.to_string());
                }
            }
        }
        if users.len() == n {
            break;
        }
    }
    for it in &file.items {
        if let Item::Fn(f) = it {
            if users.contains(&f.sig.ident.to_string()) {
                let mut alias = None;
                for (k, a) in f.sig.inputs.iter().enumerate() {
                    if let Some(t) = cell_param(a) {
                        let s = t.to_token_stream().to_string();
                        let c: Vec<&String> = l.fields.iter().filter(|x| x.1.to_token_stream().to_string() == s).map(|x| &x.0).collect();
                        if c.len() == 1 {
                            alias = Some((k, c[0].clone()));
                        }
                    }
                }
                l.users.insert(f.sig.ident.to_string(), alias);
            }
        }
    }
    Ok(())
}

fn cell_param(a: &syn::FnArg) -> Option<syn::Type> {
    if let syn::FnArg::Typed(p) = a {
        if let syn::Type::Reference(r) = &*p.ty {
            return refcell(&r.elem);
        }
    }
    None
}

pub fn mentions(l: &Locals, b: &Block) -> bool {
    let all: BTreeSet<String> = l.fields.iter().map(|f| f.0.clone()).chain(l.users.keys().cloned()).collect();
    let mut u = Uses { names: &all, hit: false };
    u.visit_block(b);
    u.hit
}

/// Signature and body of one function. `lost` gets a message when a construct is not covered.
pub fn apply(l: &Locals, sig: &mut syn::Signature, block: &mut Block, counts: &mut BTreeMap<String, usize>, lost: &mut Vec<String>) {
    let mut bind: BTreeMap<String, Expr> = BTreeMap::new();
    let tl = format_ident!("{}", l.param);
    let uses = mentions(l, block) || l.users.contains_key(&sig.ident.to_string());
    if let Some(Some((k, x))) = l.users.get(&sig.ident.to_string()) {
        if sig.inputs.len() > *k && cell_param(&sig.inputs[*k]).is_some() {
            if let syn::FnArg::Typed(p) = &sig.inputs[*k] {
                if let Pat::Ident(i) = &*p.pat {
                    let x = format_ident!("{}", x);
                    bind.insert(i.ident.to_string(), parse_quote!(#tl.#x));
                }
            }
            sig.inputs = sig.inputs.iter().enumerate().filter(|(i, _)| i != k).map(|(_, a)| a.clone()).collect();
        }
    }
    if uses {
        let ty = format_ident!("{}", l.strct);
        sig.inputs.push(parse_quote!(#tl: &mut #ty));
    }
    let mut w = Walk { l, bind: vec![bind], counts, lost, tail: true };
    w.block(block, true);
}

struct Walk<'a> {
    l: &'a Locals,
    bind: Vec<BTreeMap<String, Expr>>,
    counts: &'a mut BTreeMap<String, usize>,
    lost: &'a mut Vec<String>,
    tail: bool,
}

struct Escapes {
    hit: bool,
}
impl<'ast> Visit<'ast> for Escapes {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.hit = true,
            Expr::Macro(m) if m.mac.path.segments.last().is_some_and(|s| matches!(s.ident.to_string().as_str(), "ensure" | "bail")) => self.hit = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

impl Walk<'_> {
    fn bump(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }

    /// field path rooted at the locals or at self
    fn place(&self, e: &Expr) -> bool {
        match e {
            Expr::Field(f) => match &*f.base {
                Expr::Path(p) => p.path.is_ident(&self.l.param) || p.path.is_ident("self"),
                x => self.place(x),
            },
            _ => false,
        }
    }
    fn local(&self, e: &Expr) -> Option<String> {
        if let Expr::Field(f) = e {
            if let (Expr::Path(p), syn::Member::Named(n)) = (&*f.base, &f.member) {
                if p.path.is_ident(&self.l.param) {
                    return Some(n.to_string());
                }
            }
        }
        None
    }
    fn pool(&self, e: &Expr) -> bool {
        self.local(e).is_some_and(|n| self.l.overrides.contains_key(&n))
    }
    /// `(&P)`, `(&mut P)` -> P
    fn referred(&self, e: &Expr) -> Option<Expr> {
        if let Expr::Paren(p) = e {
            if let Expr::Reference(r) = &*p.expr {
                if self.place(&r.expr) {
                    return Some((*r.expr).clone());
                }
            }
        }
        None
    }

    fn block(&mut self, b: &mut Block, tail: bool) {
        self.bind.push(BTreeMap::new());
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        for (i, mut s) in stmts.into_iter().enumerate() {
            let last = tail && i + 1 == n && matches!(&s, Stmt::Expr(_, None));
            match &mut s {
                Stmt::Expr(e, _) => {
                    self.expr(e, last);
                }
                Stmt::Local(loc) => {
                    if let Some(init) = &mut loc.init {
                        self.expr(&mut init.expr, false);
                        if let Some((_, d)) = &mut init.diverge {
                            self.expr(d, false);
                        }
                        if let (Pat::Ident(id), Some(p)) = (&loc.pat, self.referred(&init.expr)) {
                            // a guard: the name stands for what it guards
                            self.bind.last_mut().unwrap().insert(id.ident.to_string(), p);
                            self.bump("lock or RefCell guard -> the content");
                            continue;
                        }
                    }
                    self.shadow(&loc.pat);
                }
                _ => self.visit_stmt_mut(&mut s),
            }
            b.stmts.push(s);
        }
        self.bind.pop();
    }

    fn shadow(&mut self, p: &Pat) {
        struct Names(Vec<String>);
        impl<'ast> Visit<'ast> for Names {
            fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
                self.0.push(i.ident.to_string());
                syn::visit::visit_pat_ident(self, i);
            }
        }
        let mut n = Names(vec![]);
        n.visit_pat(p);
        for x in n.0 {
            let id = format_ident!("{}", x);
            if self.lookup(&x).is_some() {
                self.bind.last_mut().unwrap().insert(x, parse_quote!(#id));
            }
        }
    }

    fn lookup(&self, n: &str) -> Option<Expr> {
        self.bind.iter().rev().find_map(|m| m.get(n)).cloned()
    }

    fn expr(&mut self, e: &mut Expr, tail: bool) {
        let old = std::mem::replace(&mut self.tail, tail);
        self.visit_expr_mut(e);
        self.tail = old;
    }
}

impl VisitMut for Walk<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let t = std::mem::replace(&mut self.tail, false);
        self.block(b, t);
        self.tail = t;
    }

    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        // arguments of ensure!/assert!/format! and the like
        use syn::punctuated::Punctuated;
        if let Ok(mut a) = m.parse_body_with(Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
            for x in a.iter_mut() {
                self.expr(x, false);
            }
            m.tokens = a.to_token_stream();
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let tail = std::mem::replace(&mut self.tail, false);
        match e {
            // X.with(|p| body)
            Expr::MethodCall(m) if m.method == "with" && m.args.len() == 1 => {
                if let (Expr::Path(p), Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                    if let Some(x) = p.path.get_ident().map(|i| i.to_string()).filter(|x| self.l.fields.iter().any(|f| f.0 == *x)) {
                        let name = match c.inputs.first() {
                            Some(Pat::Ident(i)) => i.ident.to_string(),
                            _ => {
                                self.lost.push(format!("{x}.with: parameter"));
                                return;
                            }
                        };
                        let mut esc = Escapes { hit: false };
                        esc.visit_expr(&c.body);
                        if esc.hit && !tail {
                            self.lost.push(format!("{x}.with: return inside a closure that is not the result"));
                            return;
                        }
                        let (tl, xi) = (format_ident!("{}", self.l.param), format_ident!("{}", x));
                        self.bind.push(BTreeMap::from([(name, parse_quote!(#tl.#xi))]));
                        let mut body = (*c.body).clone();
                        self.expr(&mut body, tail);
                        self.bind.pop();
                        *e = body;
                        self.bump("thread-local .with(closure) -> the closure's body on the local");
                        self.tail = tail;
                        return;
                    }
                }
            }
            Expr::Closure(c) => {
                let mut inner = c.clone();
                self.expr(&mut inner.body, false);
                *e = Expr::Closure(inner);
                self.tail = tail;
                return;
            }
            Expr::Block(b) => {
                self.block(&mut b.block, tail);
                self.tail = tail;
                return;
            }
            Expr::If(i) => {
                self.expr(&mut i.cond, false);
                self.block(&mut i.then_branch, tail);
                if let Some((_, x)) = &mut i.else_branch {
                    self.expr(x, tail);
                }
                self.tail = tail;
                return;
            }
            Expr::Match(m) => {
                self.expr(&mut m.expr, false);
                for a in m.arms.iter_mut() {
                    self.bind.push(BTreeMap::new());
                    self.shadow(&a.pat.clone());
                    if let Some((_, g)) = &mut a.guard {
                        self.expr(g, false);
                    }
                    self.expr(&mut a.body, tail);
                    self.bind.pop();
                }
                self.tail = tail;
                return;
            }
            Expr::Path(p) => {
                if let Some(x) = p.path.get_ident().and_then(|i| self.lookup(&i.to_string())) {
                    *e = x;
                }
                self.tail = tail;
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        self.tail = tail;
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let n = m.args.len();
                let bare = self.place(&m.receiver);
                let inner = self.referred(&m.receiver);
                // RefCell operations on the local itself
                if bare && n == 0 && (name == "borrow" || name == "borrow_mut") && self.local(&m.receiver).is_some() {
                    let r = &m.receiver;
                    *e = if name == "borrow" { parse_quote!((&#r)) } else { parse_quote!((&mut #r)) };
                    return;
                }
                if bare && n == 1 && name == "replace" && self.local(&m.receiver).is_some() {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(std::mem::replace(&mut #r, #a));
                    return;
                }
                if bare && n == 0 && (name == "deref" || name == "deref_mut") {
                    let r = &m.receiver;
                    *e = if name == "deref" { parse_quote!((&#r)) } else { parse_quote!((&mut #r)) };
                    return;
                }
                // MUTEX.lock().unwrap()
                if name == "unwrap" && n == 0 {
                    if let Expr::MethodCall(k) = &*m.receiver {
                        if k.method == "lock" && k.args.is_empty() && self.place(&k.receiver) {
                            let r = &k.receiver;
                            *e = parse_quote!((&mut #r));
                            return;
                        }
                    }
                }
                if let Some(p) = inner {
                    if n == 0 && (name == "deref" || name == "deref_mut") {
                        *e = (*m.receiver).clone();
                        return;
                    }
                    if n == 0 && self.pool(&p) && matches!(name.as_str(), "as_ref" | "unwrap" | "read" | "write") {
                        *e = (*m.receiver).clone();
                        return;
                    }
                    m.receiver = Box::new(p);
                }
                if self.pool(&m.receiver) && n == 0 && matches!(name.as_str(), "as_ref" | "unwrap" | "read" | "write") {
                    let r = &m.receiver;
                    *e = parse_quote!((&mut #r));
                    return;
                }
                if self.pool(&m.receiver) && name == "submit" && n == 1 {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!({ let cmd__ = #a; #r.submit(cmd__) });
                }
            }
            // self.lock().unwrap() content written with deref_mut()
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if let Some(p) = self.referred(&u.expr) {
                    *e = p;
                }
            }
            Expr::Field(f) => {
                if let Some(p) = self.referred(&f.base) {
                    f.base = Box::new(p);
                }
            }
            Expr::Call(c) => {
                let f = match &*c.func {
                    Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                    _ => None,
                };
                if let Some(f) = f {
                    if let Some(alias) = self.l.users.get(&f).cloned() {
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        if let Some((k, x)) = alias {
                            if k >= args.len() || self.local(&args[k]) != Some(x.clone()) {
                                self.lost.push(format!("{f}: argument is not {x}"));
                                return;
                            }
                            args.remove(k);
                        }
                        let tl = format_ident!("{}", self.l.param);
                        args.push(parse_quote!(#tl));
                        c.args = args.into_iter().collect();
                        self.bump("thread-locals passed on");
                    }
                }
            }
            _ => {}
        }
    }
}
