//! AST lowerings. Each one is listed, with its justification, in DESIGN.md ("Extraction").
use crate::unit::FnSpec;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Item, Pat, Stmt};

type Counts = BTreeMap<String, usize>;

fn bump(c: &mut Counts, k: &str) {
    *c.entry(k.to_string()).or_insert(0) += 1;
}

// ---------------------------------------------------------------- paths

struct Paths<'a> {
    renames: &'a [(String, String)],
    counts: &'a mut Counts,
}

fn path_string(p: &syn::Path, n: usize) -> String {
    p.segments.iter().take(n).map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

impl VisitMut for Paths<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        // explicit renames, longest prefix first
        for n in (1..=p.segments.len()).rev() {
            let s = path_string(p, n);
            if let Some((_, to)) = self.renames.iter().find(|(a, _)| *a == s) {
                let to: syn::Path = syn::parse_str(to).expect("rename target");
                let args = p.segments[n - 1].arguments.clone();
                let rest: Vec<syn::PathSegment> = p.segments.iter().skip(n).cloned().collect();
                let mut np = to;
                if let Some(l) = np.segments.last_mut() {
                    if l.arguments.is_empty() {
                        l.arguments = args;
                    }
                }
                for r in rest {
                    np.segments.push(r);
                }
                *p = np;
                bump(self.counts, "path rename");
                return;
            }
        }
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if (first == "crate" || first == "osm" || first == "super") && p.segments.len() > 1 {
            let mut segs: Vec<syn::PathSegment> = p.segments.iter().cloned().collect();
            while segs.len() > 1 {
                let s = segs[0].ident.to_string();
                if s == "osmpbf" || s.chars().next().is_some_and(|c| c.is_uppercase()) {
                    break;
                }
                segs.remove(0);
            }
            p.segments = segs.into_iter().collect();
            p.leading_colon = None;
            bump(self.counts, "module path shortened");
        }
    }
}

pub fn paths(it: &mut Item, renames: &[(String, String)], counts: &mut Counts) {
    Paths { renames, counts }.visit_item_mut(it);
}

pub fn paths_sig(s: &mut syn::Signature, renames: &[(String, String)], counts: &mut Counts) {
    Paths { renames, counts }.visit_signature_mut(s);
}

struct Assoc<'a> {
    assoc: &'a [(String, syn::Type)],
}
impl VisitMut for Assoc<'_> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let n = p.path.segments[1].ident.to_string();
                if let Some((_, ty)) = self.assoc.iter().find(|(a, _)| *a == n) {
                    *t = ty.clone();
                }
            }
        }
    }
}

pub fn substitute_assoc(sig: &mut syn::Signature, block: &mut Block, assoc: &[(String, syn::Type)]) {
    let mut a = Assoc { assoc };
    a.visit_signature_mut(sig);
    a.visit_block_mut(block);
}

// ---------------------------------------------------------------- bodies

pub struct Lower<'a> {
    spec: &'a FnSpec,
    renames: &'a [(String, String)],
    counts: &'a mut Counts,
    next_loop: usize,
    pub locks: usize,
    pool: Option<syn::Ident>,
}

fn marker(name: &str, n: usize) -> Stmt {
    let id = format_ident!("__osmx_{}_{}", name, n);
    parse_quote!(#id!();)
}

/// `if c { a; continue; } rest` at the top of a loop body  ->  `if c { a } else { rest }`
fn without_continue(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    for (k, s) in stmts.iter().enumerate() {
        if let Stmt::Expr(Expr::If(i), _) = s {
            let t = &i.then_branch.stmts;
            if i.else_branch.is_none() && matches!(t.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none()) {
                let (c, a, rest) = (&i.cond, &t[..t.len() - 1], &stmts[k + 1..]);
                let rest = without_continue(rest).unwrap_or_else(|| rest.to_vec());
                let mut out = stmts[..k].to_vec();
                out.push(parse_quote!(if #c { #(#a)* } else { #(#rest)* }));
                return Some(out);
            }
        }
        if let Stmt::Local(l) = s {
            let Some(init) = &l.init else { continue };
            let pat = &l.pat;
            let rest = || {
                let rest = &stmts[k + 1..];
                without_continue(rest).unwrap_or_else(|| rest.to_vec())
            };
            if let Some((_, e)) = &init.diverge {
                // let P = e else { a; continue };
                if let Some(a) = continues(e) {
                    let (e, rest, mut out) = (&init.expr, rest(), stmts[..k].to_vec());
                    out.push(parse_quote!(if let #pat = #e { #(#rest)* } else { #(#a)* }));
                    return Some(out);
                }
            } else if let Expr::Match(m) = &*init.expr {
                // let P = match e { A => { a; continue } B => x };
                let going: Vec<bool> = m.arms.iter().map(|a| continues(&a.body).is_some()).collect();
                if going.iter().filter(|g| !**g).count() == 1 && going.len() > 1 {
                    let mut m = m.clone();
                    for (arm, g) in m.arms.iter_mut().zip(&going) {
                        *arm.body = if *g {
                            let a = continues(&arm.body).unwrap();
                            parse_quote!({ #(#a)* })
                        } else {
                            let (x, rest) = (&arm.body, rest());
                            parse_quote!({ let #pat = #x; #(#rest)* })
                        };
                    }
                    let mut out = stmts[..k].to_vec();
                    out.push(Stmt::Expr(Expr::Match(m), None));
                    return Some(out);
                }
            }
        }
    }
    None
}

/// the statements before the `continue` that ends a block
fn continues(e: &Expr) -> Option<Vec<Stmt>> {
    match e {
        Expr::Continue(c) if c.label.is_none() => Some(vec![]),
        Expr::Block(b) if b.label.is_none() => match b.block.stmts.split_last() {
            Some((Stmt::Expr(Expr::Continue(c), _), a)) if c.label.is_none() => Some(a.to_vec()),
            _ => None,
        },
        _ => None,
    }
}

fn method<'e>(e: &'e Expr, name: &str, nargs: usize) -> Option<&'e syn::ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == name && m.args.len() == nargs => Some(m),
        _ => None,
    }
}

fn mac_args(m: &syn::Macro) -> Vec<Expr> {
    use syn::punctuated::Punctuated;
    m.parse_body_with(Punctuated::<Expr, syn::Token![,]>::parse_terminated)
        .map(|p| p.into_iter().collect())
        .unwrap_or_default()
}

/// format!("..{}..", a, b) with plain `{}` or `{name}` holes: the pieces appended one after another
fn lower_format(m: &syn::Macro) -> Option<Expr> {
    let args = mac_args(m);
    let Expr::Lit(l) = args.first()? else { return None };
    let syn::Lit::Str(l) = &l.lit else { return None };
    let mut rest = args.iter().skip(1);
    let mut stmts: Vec<Stmt> = vec![];
    let text: Vec<char> = l.value().chars().collect();
    let mut i = 0;
    while i < text.len() {
        let c = text[i];
        if (c == '{' || c == '}') && text.get(i + 1) == Some(&c) {
            stmts.push(parse_quote!(let f__ = fmt_put(f__, #c);));
            i += 2;
        } else if c == '{' {
            let end = (i..text.len()).find(|k| text[*k] == '}')?;
            let name: String = text[i + 1..end].iter().collect();
            let a: Expr = if name.is_empty() { rest.next()?.clone() } else { syn::parse_str(&name).ok()? };
            if !name.is_empty() && !matches!(a, Expr::Path(_)) {
                return None;
            }
            stmts.push(parse_quote!(let f__ = fmt_arg(f__, &(#a));));
            i = end + 1;
        } else {
            stmts.push(parse_quote!(let f__ = fmt_put(f__, #c);));
            i += 1;
        }
    }
    if rest.next().is_some() {
        return None;
    }
    Some(parse_quote!({ let f__ = fmt_new(); #(#stmts)* f__ }))
}

struct DerefOf {
    id: syn::Ident,
}
impl VisitMut for DerefOf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) {
                if let Expr::Path(p) = &*u.expr {
                    if p.path.is_ident(&self.id) {
                        let id = &self.id;
                        *e = parse_quote!(#id);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Lower<'a> {
    pub fn new(spec: &'a FnSpec, renames: &'a [(String, String)], counts: &'a mut Counts) -> Self {
        Lower { spec, renames, counts, next_loop: 0, locks: 0, pool: None }
    }

    /// loop n goes over an iterator of this crate (Some(false)) or something with its own into_iter (Some(true))
    fn custom(&self, n: usize) -> Option<bool> {
        let named = |k: &str| self.spec.options.iter().any(|o| o.strip_prefix(k).is_some_and(|x| x.split(',').any(|y| y == n.to_string())));
        if named("custominto=") {
            Some(true)
        } else if named("customiter=") {
            Some(false)
        } else {
            None
        }
    }

    fn has(&self, o: &str) -> bool {
        self.spec.options.iter().any(|x| x == o)
    }

    pub fn run(&mut self, block: &mut Block, unit_result: bool) -> usize {
        if self.has("cells") {
            // the thread pool of this function: what a lock guards afterwards is what its commands left
            let pools: Vec<&syn::PatIdent> = block
                .stmts
                .iter()
                .filter_map(|s| match s {
                    Stmt::Local(l) if l.init.as_ref().is_some_and(|i| i.expr.to_token_stream().to_string().starts_with("ThreadPoolBuilder :: new")) => match &l.pat {
                        Pat::Ident(i) => Some(i),
                        _ => None,
                    },
                    _ => None,
                })
                .collect();
            if pools.len() == 1 {
                self.pool = Some(pools[0].ident.clone());
            }
        }
        Paths { renames: self.renames, counts: self.counts }.visit_block_mut(block);
        self.visit_block_mut(block);
        if !self.spec.tail.is_empty() {
            let m = marker("tail", 0);
            if unit_result {
                if let Some(Stmt::Expr(_, semi)) = block.stmts.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
            }
            let at = match block.stmts.last() {
                _ if unit_result => block.stmts.len(),
                Some(Stmt::Expr(_, None)) => block.stmts.len() - 1,
                Some(Stmt::Macro(m)) if m.semi_token.is_none() => block.stmts.len() - 1,
                _ => block.stmts.len(),
            };
            block.stmts.insert(at, m);
        }
        if !self.spec.start.is_empty() {
            block.stmts.insert(0, marker("start", 0));
        }
        self.next_loop
    }

    fn mark_loop(&mut self, n: usize, body: &mut Block) {
        if self.spec.loop_end.contains_key(&n) {
            if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            body.stmts.push(marker("loopend", n));
        }
        body.stmts.insert(0, marker("loop", n));
    }

    fn iter_call(&self, n: usize, e: &Expr) -> Expr {
        let id = format_ident!("__osmx_iter_{}", n);
        parse_quote!(#id(#e))
    }

    fn lower_macro(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let first = m.path.segments.first().unwrap().ident.to_string();
        if first == "log" || first == "println" || first == "eprintln" {
            bump(self.counts, "log/print statement dropped");
            return Some(parse_quote!(()));
        }
        let (p, a) = if self.spec.diverge { ("vdiverge", "vassert_diverge") } else { ("vpanic", "vassert") };
        let p = format_ident!("{}", p);
        let a = format_ident!("{}", a);
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                bump(self.counts, "panic message dropped");
                Some(parse_quote!(#p()))
            }
            "assert" | "debug_assert" => {
                let args = mac_args(m);
                let c = args.first()?.clone();
                bump(self.counts, "assert message dropped");
                Some(parse_quote!(#a(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let args = mac_args(m);
                let (x, y) = (args.first()?.clone(), args.get(1)?.clone());
                Some(parse_quote!(#a(#x == #y)))
            }
            "format" => {
                let e = lower_format(m)?;
                bump(self.counts, "format! -> string concatenation");
                Some(e)
            }
            "env" => {
                bump(self.counts, "env! -> constant");
                Some(parse_quote!(venv()))
            }
            "ensure" => {
                let args = mac_args(m);
                let c = args.first()?.clone();
                bump(self.counts, "ensure! -> if not .. return an error");
                Some(parse_quote!(if !(#c) { return Err(verr()); }))
            }
            "anyhow" => {
                if let Some(f) = self.spec.options.iter().find_map(|o| o.strip_prefix("anyhow=")) {
                    // keep the one thing the message names
                    let args = mac_args(m);
                    if let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) = args.first() {
                        let t = l.value();
                        let holes: Vec<&str> = t.split('{').skip(1).filter_map(|x| x.split('}').next()).collect();
                        if holes.len() == 1 {
                            let name = holes[0].split(':').next().unwrap_or("").trim();
                            let a: Option<Expr> = if name.is_empty() { args.get(1).cloned() } else { syn::parse_str(name).ok() };
                            if let Some(a) = a {
                                let f = format_ident!("{}", f);
                                bump(self.counts, "error message -> what it names");
                                return Some(parse_quote!(#f(&#a)));
                            }
                        }
                    }
                }
                bump(self.counts, "error message dropped");
                Some(parse_quote!(verr()))
            }
            "vec" => {
                let args = mac_args(m);
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                if args.is_empty() {
                    // vec![x; n]
                    let t = m.tokens.to_string();
                    let (x, n) = t.rsplit_once(';')?;
                    let x: Expr = syn::parse_str(x).ok()?;
                    let n: Expr = syn::parse_str(n).ok()?;
                    bump(self.counts, "vec![x; n]");
                    return Some(parse_quote!(vec_repeat(#x, #n)));
                }
                bump(self.counts, "vec![..] literal");
                let mut stmts: Vec<Stmt> = vec![];
                for x in args {
                    stmts.push(parse_quote!(v__.push(#x);));
                }
                Some(parse_quote!({ let mut v__ = Vec::new(); #(#stmts)* v__ }))
            }
            _ => None,
        }
    }
}

impl VisitMut for Lower<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let last = stmts.len().wrapping_sub(1);
        for (si, mut s) in stmts.into_iter().enumerate() {
            if let Stmt::Macro(sm) = &s {
                if let Some(e) = self.lower_macro(&sm.mac) {
                    let mut semi = sm.semi_token;
                    // a block that ends in a panic has whatever type is asked of it
                    if si == last && matches!(&e, Expr::Call(c) if matches!(c.func.to_token_stream().to_string().as_str(), "vpanic" | "vdiverge")) {
                        semi = None;
                    }
                    let e = match &e {
                        Expr::Call(c) if semi.is_some() && matches!(c.func.to_token_stream().to_string().as_str(), "vpanic" | "vdiverge") => {
                            let f = &c.func;
                            parse_quote!(#f::<()>())
                        }
                        _ => e,
                    };
                    s = Stmt::Expr(e, semi);
                }
            }
            let before = self.next_loop;
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _))
                || matches!(&s, Stmt::Expr(x, _) if method(x, "for_each", 1).is_some());
            self.visit_stmt_mut(&mut s);
            // drop statements that became `()`
            if let Stmt::Expr(Expr::Tuple(t), _) = &s {
                if t.elems.is_empty() {
                    continue;
                }
            }
            let custom = self.custom(before).is_some();
            if is_loop && !custom && self.spec.before_loop.contains_key(&before) {
                out.push(marker("beforeloop", before));
            }
            if is_loop && self.spec.after_loop.contains_key(&before) {
                out.push(s);
                out.push(marker("afterloop", before));
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros in expression position
        if let Expr::Macro(m) = e {
            if let Some(n) = self.lower_macro(&m.mac) {
                *e = n;
            }
        }
        // <Vec<T> as Borrow<..>>::borrow(&x)  ->  (&x)
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.qself.is_some() && p.path.segments.last().is_some_and(|s| s.ident == "borrow") && c.args.len() == 1 {
                    let a = c.args[0].clone();
                    *e = parse_quote!((#a));
                    bump(self.counts, "Borrow::borrow on Vec -> reference");
                }
            }
        }
        // X.iter().for_each(|p| body)  ->  for p in X.iter() { body }
        if let Some(m) = method(e, "for_each", 1) {
            if let Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 1 && method(&m.receiver, "iter", 0).is_some() {
                    let src = (*m.receiver).clone();
                    let pat = c.inputs[0].clone();
                    let body = match &*c.body {
                        Expr::Block(b) => b.block.clone(),
                        x => parse_quote!({ #x; }),
                    };
                    *e = parse_quote!(for #pat in #src #body);
                    bump(self.counts, "for_each -> for loop");
                }
            }
        }
        // X.iter().position(|p| body)  ->  index of the first element for which the body is true
        if let Some(m) = method(e, "position", 1) {
            if let (Expr::Closure(c), Some(r)) = (&m.args[0], method(&m.receiver, "iter", 0)) {
                if c.inputs.len() == 1 {
                    let src = (*r.receiver).clone();
                    let pat = c.inputs[0].clone();
                    let body = (*c.body).clone();
                    let (at, pos) = (format_ident!("at_{}", self.next_loop), format_ident!("pos_{}", self.next_loop));
                    let mut w: Expr = parse_quote!(while #at < #src.len() {
                        let #pat = &#src[#at];
                        let hit__: bool = #body;
                        if hit__ { #pos = Some(#at); break; }
                        #at = #at + 1;
                    });
                    self.visit_expr_mut(&mut w);
                    *e = parse_quote!({ let mut #at: usize = 0; let mut #pos: Option<usize> = None; #w #pos });
                    bump(self.counts, "position -> loop");
                    return;
                }
            }
        }
        // (x.f)(args) with a function in field f  ->  x.f.call(args), see `retype=`
        if let Expr::Call(c) = e {
            if let Expr::Paren(p) = &*c.func {
                if let Expr::Field(f) = &*p.expr {
                    let args = &c.args;
                    *e = parse_quote!(#f.call(#args));
                    bump(self.counts, "function held in a field -> its name, dispatched");
                }
            }
        }
        // match on a string: its arms compared in order
        if let Expr::Match(m) = e {
            let lit = |p: &Pat| matches!(p, Pat::Lit(l) if matches!(&l.lit, syn::Lit::Str(_)));
            let strs = |p: &Pat| lit(p) || matches!(p, Pat::Or(o) if o.cases.iter().all(lit));
            let n = m.arms.len();
            if n >= 2 && m.arms.iter().all(|a| a.guard.is_none()) && m.arms[..n - 1].iter().all(|a| strs(&a.pat)) {
                let last = match &m.arms[n - 1].pat {
                    Pat::Wild(_) => Some((*m.arms[n - 1].body).clone()),
                    Pat::Ident(i) => {
                        let (i, b) = (i.ident.clone(), (*m.arms[n - 1].body).clone());
                        Some(parse_quote!({ let #i = str__; #b }))
                    }
                    _ => None,
                };
                if let Some(last) = last {
                    let mut chain: Expr = parse_quote!({ #last });
                    for a in m.arms[..n - 1].iter().rev() {
                        let lits: Vec<Expr> = match &a.pat {
                            Pat::Lit(l) => { let l = &l.lit; vec![parse_quote!(str__ == #l)] }
                            Pat::Or(o) => o.cases.iter().map(|c| match c { Pat::Lit(l) => { let l = &l.lit; parse_quote!(str__ == #l) } _ => unreachable!() }).collect(),
                            _ => unreachable!(),
                        };
                        let cond: Expr = lits.into_iter().reduce(|x, y| parse_quote!(#x || #y)).unwrap();
                        let body = &a.body;
                        chain = match &chain {
                            Expr::If(_) | Expr::Block(_) => parse_quote!(if #cond { #body } else #chain),
                            _ => parse_quote!(if #cond { #body } else { #chain }),
                        };
                    }
                    let mut pre: Vec<Stmt> = vec![];
                    let scrut: Expr = match method(&m.expr, "as_str", 0) {
                        Some(o) if !matches!(&*o.receiver, Expr::Path(_) | Expr::Field(_)) => {
                            let r = &o.receiver;
                            pre.push(parse_quote!(let own__ = #r;));
                            parse_quote!(own__.as_str())
                        }
                        _ => (*m.expr).clone(),
                    };
                    *e = parse_quote!({ #(#pre)* let str__ = #scrut; #chain });
                    bump(self.counts, "match on string literals -> comparisons in order");
                }
            }
        }
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("unwrap", 0) if method(&m.receiver, "lock", 0).is_some() => {
                        // MUTEX.lock().unwrap(): exclusive access to the content, a `&mut` parameter of the extracted function
                        let target = method(&m.receiver, "lock", 0).unwrap().receiver.to_token_stream().to_string().replace(' ', "");
                        let want = self.spec.options.iter().find_map(|o| o.strip_prefix("lock=")).and_then(|o| o.split_once(':'));
                        if let (Some(p), Expr::Path(r)) = (&self.pool, method(&m.receiver, "lock", 0).unwrap().receiver.as_ref()) {
                            *e = parse_quote!(#r.content(&#p));
                            bump(self.counts, "lock().unwrap() -> the content, given the pool");
                            self.locks += 1;
                        } else if let Some((t, param)) = want {
                            if t == target {
                                let id = format_ident!("{}", param);
                                *e = parse_quote!((&mut *#id));
                                bump(self.counts, "lock().unwrap() -> exclusive borrow");
                                self.locks += 1;
                            }
                        }
                    }
                    ("sort", 0) if method(&m.receiver, "make_contiguous", 0).is_some() => {
                        let r = &method(&m.receiver, "make_contiguous", 0).unwrap().receiver;
                        *e = parse_quote!(#r.sort_all());
                        bump(self.counts, "make_contiguous().sort() -> sort_all()");
                    }
                    ("range", 1) if m.args[0].to_token_stream().to_string() == ".." => {
                        let r = m.receiver.clone();
                        *e = parse_quote!(#r.range_all());
                        bump(self.counts, "range(..) -> range_all()");
                    }
                    ("borrow_mut", 0) if self.has("borrowmut") => {
                        let r = m.receiver.clone();
                        *e = parse_quote!((&mut #r));
                        bump(self.counts, "BorrowMut::borrow_mut -> &mut");
                    }
                    ("unwrap", 0) if self.spec.diverge => {
                        let r = m.receiver.clone();
                        *e = parse_quote!(vunwrap(#r));
                        bump(self.counts, "unwrap (panic refuses the call)");
                    }
                    ("shl" | "shr", 1) => {
                        let r = m.receiver.clone();
                        let a = m.args[0].clone();
                        *e = if name == "shl" { parse_quote!(((#r) << (#a))) } else { parse_quote!(((#r) >> (#a))) };
                        bump(self.counts, "shl/shr methods -> operators");
                    }
                    ("add_assign", 1) => {
                        let r = m.receiver.clone();
                        let a = m.args[0].clone();
                        *e = parse_quote!(#r += #a);
                        bump(self.counts, "add_assign -> +=");
                    }
                    ("sub_assign", 1) => {
                        let r = m.receiver.clone();
                        let a = m.args[0].clone();
                        *e = parse_quote!(#r -= #a);
                        bump(self.counts, "sub_assign -> -=");
                    }
                    ("starts_with", 1) if slice_of(&m.receiver).is_some_and(|(_, _, b)| b.is_none()) => {
                        let (x, a, _) = slice_of(&m.receiver).unwrap();
                        let p = m.args[0].clone();
                        *e = parse_quote!(bytes_at(#x, #a, #p));
                        bump(self.counts, "x[a..].starts_with(p) -> function of x, a, p");
                    }
                    ("to_vec", 0) if slice_of(&m.receiver).is_some_and(|(_, _, b)| b.is_some()) => {
                        let (x, a, b) = slice_of(&m.receiver).unwrap();
                        *e = parse_quote!(bytes_sub(#x, #a, #b));
                        bump(self.counts, "x[a..b].to_vec() -> function of x, a, b");
                    }
                    ("trim_end_matches", 1) => {
                        let r = m.receiver.clone();
                        let a = m.args[0].clone();
                        *e = parse_quote!(str_trim_end(#r, #a));
                        bump(self.counts, "str method -> function of the characters");
                    }
                    ("collect", 0) if method(&m.receiver, "split", 1).is_some() => {
                        let sp = method(&m.receiver, "split", 1).unwrap();
                        let r = sp.receiver.clone();
                        let a = sp.args[0].clone();
                        *e = parse_quote!(str_split(#r, #a));
                        bump(self.counts, "str method -> function of the characters");
                    }
                    ("starts_with", 1) if matches!(&m.args[0], Expr::Lit(_)) => {
                        let r = m.receiver.clone();
                        let a = m.args[0].clone();
                        *e = parse_quote!(str_starts(&(#r), #a));
                        bump(self.counts, "str method -> function of the characters");
                    }
                    ("replace", 2) if matches!(&m.args[0], Expr::Lit(_)) => {
                        let r = m.receiver.clone();
                        let a = m.args[0].clone();
                        let b = m.args[1].clone();
                        *e = parse_quote!(str_replace(&(#r), #a, #b));
                        bump(self.counts, "str method -> function of the characters");
                    }
                    ("to_be_bytes", 0) => {
                        let r = m.receiver.clone();
                        *e = parse_quote!(to_be4(#r));
                        bump(self.counts, "to_be_bytes -> to_be4");
                    }
                    ("index", 1) => {
                        let r = m.receiver.clone();
                        let a = m.args[0].clone();
                        *e = parse_quote!((&#r[#a]));
                        bump(self.counts, "Index::index -> []");
                    }
                    ("with_context" | "context", 1) => {
                        let r = (*m.receiver).clone();
                        if let Some(i) = method(&r, "ok", 0) {
                            // r.ok().with_context(..): Result<T, _> -> Result<T, anyhow::Error>
                            let rr = i.receiver.clone();
                            *e = parse_quote!(vctx(#rr));
                        } else {
                            *e = parse_quote!(vctx(#r));
                        }
                        bump(self.counts, "error context dropped");
                    }
                    ("ok_or", 1) if matches!(&m.args[0], Expr::Macro(x) if x.mac.path.segments.last().is_some_and(|s| s.ident == "anyhow")) => {
                        let r = m.receiver.clone();
                        *e = parse_quote!(vctx_opt(#r));
                        bump(self.counts, "error context dropped");
                    }
                    ("collect", 0) if self.has("set_collect") && method(&m.receiver, "iter", 0).is_some() => {
                        let r = method(&m.receiver, "iter", 0).unwrap().receiver.clone();
                        *e = parse_quote!(#r.to_vset());
                        bump(self.counts, "iter().collect() into a set -> to_vset()");
                    }
                    ("expect", 1) => {
                        let r = m.receiver.clone();
                        *e = if self.spec.diverge { parse_quote!(vunwrap(#r)) } else { parse_quote!(#r.unwrap()) };
                        bump(self.counts, "expect message dropped");
                    }
                    ("unwrap_or_else", 1) => {
                        let r = m.receiver.clone();
                        if m.args[0].to_token_stream().to_string().contains("panic !") {
                            *e = if self.spec.diverge { parse_quote!(vunwrap(#r)) } else { parse_quote!(#r.unwrap()) };
                            bump(self.counts, "expect message dropped");
                        }
                    }
                    _ => {}
                }
            }
            Expr::ForLoop(f) => {
                let n = self.next_loop;
                self.next_loop += 1;
                let mut body = f.body.clone();
                if let Some(b) = without_continue(&body.stmts) {
                    body.stmts = b;
                    bump(self.counts, "if .. continue in a for loop -> if/else");
                }
                let mut pat = (*f.pat).clone();
                let mut it = (*f.expr).clone();
                let mut pre: Vec<Stmt> = vec![];
                // enumerate
                if let Some(m) = method(&it, "enumerate", 0) {
                    if let Pat::Tuple(tp) = &pat {
                        if tp.elems.len() == 2 {
                            let idx = tp.elems[0].clone();
                            let val = tp.elems[1].clone();
                            let cnt = format_ident!("enum_{}", n);
                            pre.push(parse_quote!(let mut #cnt: usize = 0;));
                            let mut ns: Vec<Stmt> = vec![parse_quote!(let #idx = #cnt;), parse_quote!(#cnt = #cnt + 1;)];
                            ns.extend(body.stmts.clone());
                            body.stmts = ns;
                            it = (*m.receiver).clone();
                            pat = val;
                            bump(self.counts, "enumerate -> counter");
                        }
                    }
                }
                // (a..b).rev(): an ascending counter and the mirrored value
                if let Some(m) = method(&it, "rev", 0) {
                    let inner = match &*m.receiver {
                        Expr::Paren(p) => (*p.expr).clone(),
                        x => x.clone(),
                    };
                    if let Expr::Range(r) = &inner {
                        if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            let cnt = format_ident!("rev_{}", n);
                            let p = pat.clone();
                            let mut ns: Vec<Stmt> = vec![parse_quote!(let #p = #b - 1 - (#cnt - #a);)];
                            ns.extend(body.stmts.clone());
                            body.stmts = ns;
                            pat = parse_quote!(#cnt);
                            it = inner.clone();
                            bump(self.counts, "(a..b).rev() -> mirrored counter");
                        }
                    }
                }
                // iteration over references to Copy values named in copyiter=: the variable holds the value
                if let Some(names) = self.spec.options.iter().find_map(|o| o.strip_prefix("copyiter=")) {
                    if let Pat::Ident(pi) = &pat {
                        if names.split(',').any(|x| pi.ident == x) {
                            let id = pi.ident.clone();
                            let rid = format_ident!("{}_ref", id);
                            let mut ns: Vec<Stmt> = vec![parse_quote!(let #id = *#rid;)];
                            DerefOf { id: id.clone() }.visit_block_mut(&mut body);
                            ns.extend(body.stmts.clone());
                            body.stmts = ns;
                            pat = parse_quote!(#rid);
                            bump(self.counts, "loop variable of a reference type -> its value");
                        }
                    }
                }
                self.visit_block_mut(&mut body);
                let by_ref = method(&it, "by_ref", 0).map(|m| (*m.receiver).clone());
                if let Some(mut r) = by_ref {
                    self.visit_expr_mut(&mut r);
                    self.mark_loop(n, &mut body);
                    // the loop marker must be first in the loop, not in the match arm
                    let first = body.stmts.remove(0);
                    let end: Vec<Stmt> = vec![];
                    *e = parse_quote!(loop { #first match #r.next() { None => { break; } Some(#pat) => #body } #(#end)* });
                    bump(self.counts, "for over by_ref -> loop with next");
                    return;
                }
                if let Some(into) = self.custom(n) {
                    // an iterator of this crate, by its own `next`
                    self.visit_expr_mut(&mut it);
                    if into {
                        it = parse_quote!(#it.into_iter());
                    }
                    self.mark_loop(n, &mut body);
                    let first = body.stmts.remove(0);
                    let id = format_ident!("iter_{}", n);
                    pre.push(parse_quote!(let mut #id = #it;));
                    if self.spec.before_loop.contains_key(&n) {
                        pre.push(marker("beforeloop", n));
                    }
                    *e = parse_quote!({ #(#pre)* loop { #first match #id.next() { None => { break; } Some(#pat) => #body } } });
                    bump(self.counts, "for over an iterator of this crate -> loop with its next");
                    return;
                }
                self.visit_expr_mut(&mut it);
                let is_range = matches!(&it, Expr::Range(_)) || matches!(&it, Expr::Paren(p) if matches!(&*p.expr, Expr::Range(_)));
                let named = self.spec.loops.get(&n).map(|l| !l.0.is_empty()).unwrap_or(false);
                if named {
                    it = self.iter_call(n, &it);
                }
                let _ = is_range;
                self.mark_loop(n, &mut body);
                let fl: Expr = parse_quote!(for #pat in #it #body);
                if pre.is_empty() {
                    *e = fl;
                } else {
                    *e = parse_quote!({ #(#pre)* #fl });
                }
                return;
            }
            Expr::While(w) => {
                let n = self.next_loop;
                self.next_loop += 1;
                let mut body = w.body.clone();
                let mut cond = (*w.cond).clone();
                self.visit_expr_mut(&mut cond);
                self.visit_block_mut(&mut body);
                if let Expr::Let(l) = &cond {
                    let pat = &l.pat;
                    let ex = &l.expr;
                    self.mark_loop(n, &mut body);
                    let first = body.stmts.remove(0);
                    *e = parse_quote!(loop { #first match #ex { #pat => #body _ => { break; } } });
                    bump(self.counts, "while let -> loop with match");
                } else {
                    self.mark_loop(n, &mut body);
                    *e = parse_quote!(while #cond #body);
                }
                return;
            }
            Expr::Loop(l) => {
                let n = self.next_loop;
                self.next_loop += 1;
                self.visit_block_mut(&mut l.body);
                let mut body = l.body.clone();
                self.mark_loop(n, &mut body);
                l.body = body;
                return;
            }
            _ => {}
        }
        // OPTION.map(|p| body)  ->  match
        if self.has("optmap") {
            if let Some(mp) = method(e, "map", 1) {
                if let Expr::Closure(c) = &mp.args[0] {
                    if c.inputs.len() == 1 {
                        let src = (*mp.receiver).clone();
                        let pat = c.inputs[0].clone();
                        let body = (*c.body).clone();
                        bump(self.counts, "Option::map with a closure -> match");
                        *e = parse_quote!(match #src { Some(#pat) => Some(#body), None => None });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        // X.iter().map(|p| body).collect()  ->  block with a loop
        if self.has("map_collect") {
            if let Some(col) = method(e, "collect", 0) {
                if let Some(mp) = method(&col.receiver, "map", 1) {
                    if let Expr::Closure(c) = &mp.args[0] {
                        let src = (*mp.receiver).clone();
                        let pat = c.inputs[0].clone();
                        let body = (*c.body).clone();
                        // a closure parameter that the closure mutates
                        let (pat, first): (Pat, Option<Stmt>) = match &pat {
                            Pat::Ident(pi) if pi.mutability.is_some() => {
                                let id = &pi.ident;
                                (parse_quote!(#id), Some(parse_quote!(let mut #id = #id;)))
                            }
                            _ => (pat, None),
                        };
                        let n = self.next_loop;
                        // collecting into a Result: the first error, else the list
                        if col.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', "").starts_with("::<Result<")).unwrap_or(false) {
                            let mut fl: Expr = parse_quote!(for #pat in #src { #first if e__.is_none() { match #body { Ok(x__) => { v__.push(x__); } Err(x__) => { e__ = Some(x__); } } } });
                            self.visit_expr_mut(&mut fl);
                            bump(self.counts, "map+collect into a Result -> loop that keeps the first error");
                            let before = self.spec.before_loop.contains_key(&n).then(|| marker("beforeloop", n));
                            let after = self.spec.after_loop.contains_key(&n).then(|| marker("afterloop", n));
                            *e = parse_quote!({ let mut v__ = Vec::new(); let mut e__ = None; #before #fl #after match e__ { None => Ok(v__), Some(x__) => Err(x__) } });
                            return;
                        }
                        let mut fl: Expr = parse_quote!(for #pat in #src { #first v__.push(#body); });
                        bump(self.counts, "map+collect -> loop with push");
                        self.visit_expr_mut(&mut fl);
                        let before = self.spec.before_loop.contains_key(&n).then(|| marker("beforeloop", n));
                        let after = self.spec.after_loop.contains_key(&n).then(|| marker("afterloop", n));
                        let ty = col.turbofish.as_ref().and_then(|t| t.args.first().cloned()).filter(|t| !t.to_token_stream().to_string().contains('_'));
                        *e = match ty {
                            Some(t) => parse_quote!({ let mut v__: #t = Vec::new(); #before #fl #after v__ }),
                            None => parse_quote!({ let mut v__ = Vec::new(); #before #fl #after v__ }),
                        };
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- rendering

fn is_moved(c: &syn::ExprClosure) -> bool {
    c.capture.is_some() && matches!(&*c.body, Expr::Block(_))
}

/// The body of the only `move` closure of a function.
pub fn moved_closure(b: &Block) -> Option<Block> {
    struct F(Vec<Block>);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
            if let (true, Expr::Block(b)) = (is_moved(c), &*c.body) {
                self.0.push(b.block.clone());
            }
            syn::visit::visit_expr_closure(self, c);
        }
    }
    let mut f = F(vec![]);
    syn::visit::Visit::visit_block(&mut f, b);
    if f.0.len() == 1 { f.0.pop() } else { None }
}

/// The only `move` closure of a function replaced by a name.
pub fn name_moved_closure(b: &mut Block, name: &str) -> bool {
    struct F(usize, Expr);
    impl VisitMut for F {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if matches!(e, Expr::Closure(c) if is_moved(c)) {
                self.0 += 1;
                *e = self.1.clone();
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut f = F(0, syn::parse_str(name).expect("closure name"));
    f.visit_block_mut(b);
    f.0 == 1
}

/// Calls of the named functions and methods get one more argument.
pub fn thread_world(b: &mut Block, w: &str, names: &[&str]) -> usize {
    struct F<'a>(usize, Expr, &'a [&'a str]);
    impl VisitMut for F<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::MethodCall(m) if self.2.contains(&m.method.to_string().as_str()) => {
                    m.args.push(self.1.clone());
                    self.0 += 1;
                }
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        let last = seg.last().cloned().unwrap_or_default();
                        let two = seg[seg.len().saturating_sub(2)..].join("::");
                        if self.2.contains(&last.as_str()) || self.2.contains(&two.as_str()) {
                            c.args.push(self.1.clone());
                            self.0 += 1;
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut f = F(0, syn::parse_str(w).expect("world"), names);
    f.visit_block_mut(b);
    f.0
}

pub fn render_block(b: &Block) -> String {
    let it: Item = parse_quote!(fn __osmx() #b);
    let s = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![it] });
    s.trim_start_matches("fn __osmx() ").to_string()
}

pub fn render_sig(s: &syn::Signature) -> String {
    let b: Block = parse_quote!({});
    let it: TokenStream = quote!(#s #b);
    let it: syn::ItemFn = match syn::parse2::<syn::ItemFn>(it.clone()) {
        Ok(i) => i,
        Err(_) => {
            // methods with a receiver are not ItemFn: render through an impl
            let im: Item = syn::parse2(quote!(impl X { #it })).expect("method");
            let t = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![im] });
            let a = t.find("fn ").unwrap();
            let z = t.rfind("{}").unwrap();
            return t[a..z].trim().to_string();
        }
    };
    let t = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![Item::Fn(it)] });
    let a = t.find("fn ").unwrap();
    let z = t.rfind("{}").unwrap();
    t[a..z].trim().to_string()
}

pub fn render_type(t: &syn::Type) -> String {
    let it: Item = parse_quote!(type X = #t;);
    let s = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![it] });
    let s = s.trim();
    s["type X = ".len()..s.len() - 1].trim().to_string()
}

/// Put contract text in the place of the markers.
pub fn splice(body: &str, spec: &FnSpec) -> String {
    let mut s = body.to_string();
    // loop invariants: `{` ws `__osmx_loop_N!();`
    let mut n = 0;
    while let Some(p) = s.find(&format!("__osmx_loop_{n}!();")) {
        let m = format!("__osmx_loop_{n}!();");
        let open = s[..p].rfind('{').expect("loop brace");
        let text = spec.loops.get(&n).map(|l| l.1.clone()).unwrap_or_default();
        let st = spec.loop_start.get(&n).cloned().unwrap_or_default();
        s = format!("{}\n{}{{\n{}{}", &s[..open], text, st, &s[p + m.len()..]);
        n += 1;
        let _ = &m;
    }
    // loops may be numbered out of textual order (nested visiting is pre-order, so this finds all)
    for (k, v) in &spec.loop_end {
        s = s.replace(&format!("__osmx_loopend_{k}!();"), v);
    }
    for (k, v) in &spec.before_loop {
        s = s.replace(&format!("__osmx_beforeloop_{k}!();"), v);
    }
    for (k, v) in &spec.after_loop {
        s = s.replace(&format!("__osmx_afterloop_{k}!();"), v);
    }
    s = s.replace("__osmx_start_0!();", &spec.start);
    s = s.replace("__osmx_tail_0!();", &spec.tail);
    for (k, (name, _)) in &spec.loops {
        if name.is_empty() {
            continue;
        }
        let pat = format!("__osmx_iter_{k}(");
        if let Some(p) = s.find(&pat) {
            let start = p + pat.len();
            let mut depth = 1;
            let mut end = start;
            for (i, c) in s[start..].char_indices() {
                match c {
                    '(' => depth += 1,
                    ')' => {
                        depth -= 1;
                        if depth == 0 {
                            end = start + i;
                            break;
                        }
                    }
                    _ => {}
                }
            }
            let inner = s[start..end].trim().trim_end_matches(',').to_string();
            s = format!("{}{}: {}{}", &s[..p], name, inner, &s[end + 1..]);
        }
    }
    s
}

/// `x[a..]` and `x[a..b]`
fn slice_of(e: &Expr) -> Option<(Expr, Expr, Option<Expr>)> {
    let Expr::Index(i) = e else { return None };
    let Expr::Range(r) = &*i.index else { return None };
    if matches!(r.limits, syn::RangeLimits::Closed(_)) {
        return None;
    }
    Some(((*i.expr).clone(), (**r.start.as_ref()?).clone(), r.end.as_ref().map(|b| (**b).clone())))
}
