use crate::lower;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use syn::{ImplItem, Item};

pub struct Ctx {
    pub repo: PathBuf,
    pub files: BTreeMap<String, syn::File>,
    pub out: String,
    pub functions: Vec<(String, String, usize)>,
    pub trusted: Vec<(String, String)>,
    pub lost: Vec<String>,
    pub retype: Option<(String, String)>,
    pub lowerings: BTreeMap<String, usize>,
    pub renames: Vec<(String, String)>,
    pub locals: Option<crate::locals::Locals>,
}

/// Read a unit file, expanding `//@ include` (each file once, where it is first named).
pub fn load(p: &Path) -> std::io::Result<String> {
    load_once(p, &mut std::collections::BTreeSet::new())
}
fn load_once(p: &Path, seen: &mut std::collections::BTreeSet<String>) -> std::io::Result<String> {
    let s = fs::read_to_string(p)?;
    let mut out = String::new();
    for line in s.lines() {
        if let Some(rest) = line.trim().strip_prefix("//@ include ") {
            let (name, trusted) = match rest.trim().strip_suffix(" trusted") {
                Some(n) => (n.trim(), true),
                None => (rest.trim(), false),
            };
            if !seen.insert(name.to_string()) {
                continue;
            }
            let inner = load_once(&p.parent().unwrap().join(name), seen)?;
            if trusted {
                // contracts proved in another unit: here their statements only
                for l in inner.lines() {
                    out.push_str(&l.replace("//@ fn ", "//@ trusted "));
                    out.push('\n');
                }
            } else {
                out.push_str(&inner);
            }
        } else {
            out.push_str(line);
        }
        out.push('\n');
    }
    Ok(out)
}

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub spec: String,
    pub attr: String,
    pub rename: Option<String>,
    pub diverge: bool,
    pub sig: Option<String>,
    pub loops: BTreeMap<usize, (String, String)>, // iter name, text
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub after_loop: BTreeMap<usize, String>,
    pub before_loop: BTreeMap<usize, String>,
    pub start: String,
    pub tail: String,
    pub options: Vec<String>,
}

pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub self_ty: Option<String>,
    pub assoc: Vec<(String, syn::Type)>,
}

impl Ctx {
    fn file(&mut self, f: &str) -> Option<&syn::File> {
        if !self.files.contains_key(f) {
            let p = self.repo.join(f);
            let text = match fs::read_to_string(&p) {
                Ok(t) => t,
                Err(e) => {
                    self.lost.push(format!("{f}: cannot read: {e}"));
                    return None;
                }
            };
            match syn::parse_file(&text) {
                Ok(parsed) => {
                    self.files.insert(f.to_string(), parsed);
                }
                Err(e) => {
                    self.lost.push(format!("{f}: cannot parse: {e}"));
                    return None;
                }
            }
        }
        self.files.get(f)
    }

    fn type_name(t: &syn::Type) -> String {
        match t {
            syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
            _ => t.to_token_stream().to_string(),
        }
    }

    fn find_fn(&mut self, f: &str, path: &str) -> Option<Found> {
        let file = self.file(f)?.clone();
        let (tr, rest) = match path.split_once('@') {
            Some((a, b)) => (Some(a.to_string()), b),
            None => (None, path),
        };
        let mut items: Vec<Item> = file.items.clone();
        let mut k = 0;
        while k < items.len() {
            // functions inside macro_rules or cfg(test) modules are ignored
            if let Item::Mod(m) = &items[k] {
                let is_test = m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"));
                if !is_test {
                    if let Some((_, c)) = &m.content {
                        items.extend(c.clone());
                    }
                }
            }
            k += 1;
        }
        match rest.split_once("::") {
            None => {
                for it in &items {
                    if let Item::Fn(x) = it {
                        if x.sig.ident == rest {
                            return Some(Found { sig: x.sig.clone(), block: (*x.block).clone(), self_ty: None, assoc: vec![] });
                        }
                    }
                }
            }
            Some((ty, name)) => {
                for it in &items {
                    if let Item::Impl(im) = it {
                        if Self::type_name(&im.self_ty) != ty {
                            continue;
                        }
                        let trait_name = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                        if trait_name != tr {
                            continue;
                        }
                        let mut assoc = vec![];
                        for ii in &im.items {
                            if let ImplItem::Type(t) = ii {
                                assoc.push((t.ident.to_string(), t.ty.clone()));
                            }
                        }
                        for ii in &im.items {
                            if let ImplItem::Fn(x) = ii {
                                if x.sig.ident == name {
                                    return Some(Found {
                                        sig: x.sig.clone(),
                                        block: x.block.clone(),
                                        self_ty: Some(ty.to_string()),
                                        assoc,
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
        self.lost.push(format!("{f}: no function {path}"));
        None
    }

    fn emit_type(&mut self, f: &str, name: &str, opts: &[String], keep: &Option<Vec<String>>) {
        let Some(file) = self.file(f).cloned() else { return };
        let mut items: Vec<Item> = file.items.clone();
        let mut k = 0;
        let modpath: Vec<&str> = name.split("::").collect();
        let last = *modpath.last().unwrap();
        while k < items.len() {
            if let Item::Mod(m) = &items[k] {
                if let Some((_, c)) = &m.content {
                    if modpath.len() > 1 && m.ident == modpath[0] {
                        items = c.clone();
                        k = 0;
                        continue;
                    }
                }
            }
            k += 1;
        }
        for it in items {
            match it {
                Item::Struct(mut s) if s.ident == last => {
                    s.attrs.clear();
                    s.vis = syn::parse_quote!(pub);
                    for fld in s.fields.iter_mut() {
                        fld.attrs.clear();
                        fld.vis = syn::parse_quote!(pub);
                    }
                    if let Some((fl, ty)) = &self.retype {
                        // a function-pointer field becomes the name of the function it points to
                        for x in s.fields.iter_mut() {
                            if x.ident.as_ref().is_some_and(|i| i == fl) {
                                if matches!(x.ty, syn::Type::BareFn(_)) || x.ty.to_token_stream().to_string().contains("dyn Fn") || x.ty.to_token_stream().to_string().starts_with("Arc < Mutex <") {
                                    x.ty = syn::parse_str(ty).expect("type");
                                    *self.lowerings.entry("function pointer -> name of the function, shared lock -> cell".to_string()).or_insert(0) += 1;
                                } else {
                                    self.lost.push(format!("{f}: {name}.{fl} is no function pointer or shared lock"));
                                }
                            }
                        }
                    }
                    if let (Some(k), syn::Fields::Named(n)) = (keep, &mut s.fields) {
                        // fields that no function of the unit mentions (a mention does not compile)
                        let fields = std::mem::take(&mut n.named);
                        n.named = fields.into_iter().filter(|x| k.iter().any(|y| x.ident.as_ref().is_some_and(|i| i == y))).collect();
                        *self.lowerings.entry("unmentioned fields dropped".to_string()).or_insert(0) += 1;
                    }
                    let mut it = Item::Struct(s);
                    lower::paths(&mut it, &self.renames, &mut self.lowerings);
                    self.push_item(it, opts);
                    return;
                }
                Item::Enum(mut s) if s.ident == last => {
                    s.attrs.clear();
                    s.vis = syn::parse_quote!(pub);
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                        for fld in v.fields.iter_mut() {
                            fld.attrs.clear();
                        }
                    }
                    let mut it = Item::Enum(s);
                    lower::paths(&mut it, &self.renames, &mut self.lowerings);
                    self.push_item(it, opts);
                    return;
                }
                _ => {}
            }
        }
        self.lost.push(format!("{f}: no type {name}"));
    }

    fn push_item(&mut self, it: Item, opts: &[String]) {
        let text = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![it] });
        for o in opts {
            self.out.push_str(o);
            self.out.push('\n');
        }
        self.out.push_str(&text);
    }

    pub fn process(&mut self, text: &str) {
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            let t = l.trim();
            if let Some(rest) = t.strip_prefix("//@ ") {
                let mut w = rest.split_whitespace();
                match w.next().unwrap_or("") {
                    "rename" => {
                        let a = w.next().unwrap().to_string();
                        let b = w.next().unwrap().to_string();
                        self.renames.push((a, b));
                    }
                    "type" => {
                        let f = w.next().unwrap().to_string();
                        let n = w.next().unwrap().to_string();
                        let rest: Vec<String> = w.map(|x| x.replace('~', " ")).collect();
                        let keep: Option<Vec<String>> = rest.iter().find_map(|x| x.strip_prefix("keep=")).map(|x| x.split(',').map(|y| y.to_string()).collect());
                        self.retype = rest.iter().find_map(|x| x.strip_prefix("retype=")).and_then(|x| x.split_once(':')).map(|(a, b)| (a.to_string(), b.to_string()));
                        let opts: Vec<String> = rest.into_iter().filter(|x| !x.starts_with("keep=") && !x.starts_with("retype=")).collect();
                        self.emit_type(&f, &n, &opts, &keep);
                        self.retype = None;
                    }
                    "const" => {
                        let f = w.next().unwrap().to_string();
                        let n = w.next().unwrap().to_string();
                        self.emit_const(&f, &n);
                    }
                    "locals" => {
                        // locals FILE STRUCT PARAM [NAME=TYPE ..]: the contract of `init` follows
                        let mut l = crate::locals::Locals { file: w.next().unwrap().into(), strct: w.next().unwrap().into(), param: w.next().unwrap().into(), ..Default::default() };
                        for o in w {
                            let (a, b) = o.split_once('=').unwrap();
                            l.overrides.insert(a.into(), b.into());
                        }
                        let mut spec = String::new();
                        i += 1;
                        while i < lines.len() && lines[i].trim() != "//@ end" {
                            spec.push_str(lines[i]);
                            spec.push('\n');
                            i += 1;
                        }
                        self.emit_locals(l, &spec);
                    }
                    k @ ("fn" | "trusted") => {
                        let f = w.next().unwrap().to_string();
                        let n = w.next().unwrap().to_string();
                        let mut spec = FnSpec::default();
                        for o in w {
                            if let Some(r) = o.strip_prefix("ret=") {
                                spec.ret = Some(r.to_string());
                            } else if let Some(r) = o.strip_prefix("as=") {
                                spec.rename = Some(r.to_string());
                            } else if o == "diverge" {
                                spec.diverge = true;
                            } else {
                                spec.options.push(o.to_string());
                            }
                        }
                        let mut section = "spec".to_string();
                        let mut iter_name = String::new();
                        i += 1;
                        while i < lines.len() && lines[i].trim() != "//@ end" {
                            let tt = lines[i].trim();
                            if let Some(d) = tt.strip_prefix("//@ ") {
                                section = d.trim_end_matches(':').trim().to_string();
                                iter_name.clear();
                                let parts: Vec<&str> = section.split_whitespace().collect();
                                if parts[0] == "loop" {
                                    let n: usize = parts[1].parse().unwrap();
                                    iter_name = parts.get(2).map(|s| s.to_string()).unwrap_or_default();
                                    spec.loops.entry(n).or_default().0 = iter_name.clone();
                                }
                            } else {
                                let parts: Vec<&str> = section.split_whitespace().collect();
                                let dst: &mut String = match parts[0] {
                                    "spec" => &mut spec.spec,
                                    "attr" => &mut spec.attr,
                                    "start" => &mut spec.start,
                                    "tail" => &mut spec.tail,
                                    "sig" => spec.sig.get_or_insert_with(String::new),
                                    "loop" => &mut spec.loops.entry(parts[1].parse().unwrap()).or_default().1,
                                    "loopstart" => spec.loop_start.entry(parts[1].parse().unwrap()).or_default(),
                                    "loopend" => spec.loop_end.entry(parts[1].parse().unwrap()).or_default(),
                                    "beforeloop" => spec.before_loop.entry(parts[1].parse().unwrap()).or_default(),
                                    "afterloop" => spec.after_loop.entry(parts[1].parse().unwrap()).or_default(),
                                    other => panic!("unknown section {other}"),
                                };
                                dst.push_str(lines[i]);
                                dst.push('\n');
                            }
                            i += 1;
                        }
                        let trusted = k == "trusted";
                        self.emit_fn(&f, &n, &spec, trusted);
                    }
                    other => panic!("unknown directive {other}"),
                }
            } else {
                self.out.push_str(l);
                self.out.push('\n');
            }
            i += 1;
        }
    }

    fn emit_const(&mut self, f: &str, name: &str) {
        let Some(file) = self.file(f).cloned() else { return };
        for it in file.items {
            if let Item::Const(mut c) = it {
                if c.ident == name {
                    c.attrs.clear();
                    c.vis = syn::parse_quote!(pub);
                    self.push_item(Item::Const(c), &[]);
                    return;
                }
            }
        }
        self.lost.push(format!("{f}: no const {name}"));
    }

    fn emit_locals(&mut self, mut l: crate::locals::Locals, spec: &str) {
        let f = l.file.clone();
        let Some(file) = self.file(&f).cloned() else { return };
        if let Err(e) = crate::locals::collect(&file, &mut l) {
            self.lost.push(format!("{f}: {e}"));
            return;
        }
        for n in l.overrides.keys() {
            if !l.fields.iter().any(|x| x.0 == *n) {
                self.lost.push(format!("{f}: no thread-local {n}"));
            }
        }
        let ty = quote::format_ident!("{}", l.strct);
        let mut fields: Vec<syn::Field> = vec![];
        let mut inits: Vec<syn::FieldValue> = vec![];
        for (n, t, v) in &l.fields {
            let id = quote::format_ident!("{}", n);
            match l.overrides.get(n) {
                Some(o) => {
                    let o: syn::Type = syn::parse_str(o).expect("type");
                    fields.push(syn::parse_quote!(pub #id: #o));
                    inits.push(syn::parse_quote!(#id: #o::none()));
                }
                None => {
                    fields.push(syn::parse_quote!(pub #id: #t));
                    inits.push(syn::parse_quote!(#id: #v));
                }
            }
        }
        let mut s: Item = syn::parse_quote!(pub struct #ty { #(#fields),* });
        lower::paths(&mut s, &self.renames, &mut self.lowerings);
        self.push_item(s, &["#[allow(non_snake_case)]".to_string()]);
        let mut b: Item = syn::parse_quote!(fn x() { #ty { #(#inits),* } });
        lower::paths(&mut b, &self.renames, &mut self.lowerings);
        let Item::Fn(x) = b else { unreachable!() };
        let body = lower::render_block(&x.block);
        let line = self.out.lines().count() + 1;
        self.out.push_str(&format!("impl {ty} {{\npub fn init() -> (r: Self)\n{spec}{body}\n}}\n"));
        self.functions.push((format!("{f}:thread_local!"), format!("{ty}::init"), line));
        self.locals = Some(l);
    }

    fn emit_fn(&mut self, f: &str, path: &str, spec: &FnSpec, trusted: bool) {
        let Some(found) = self.find_fn(f, path) else { return };
        let mut sig = found.sig.clone();
        let mut block = found.block.clone();
        let id = format!("{f}:{path}");
        if spec.options.iter().any(|o| o == "closurebody") {
            // the body of the closure this function hands over (its captures become the parameters of `sig`)
            match lower::moved_closure(&block) {
                Some(b) if spec.sig.is_some() => block = b,
                _ => {
                    self.lost.push(format!("{id}: not exactly one moved closure"));
                    return;
                }
            }
            *self.lowerings.entry("closure body -> function over its captures".to_string()).or_insert(0) += 1;
        }
        lower::substitute_assoc(&mut sig, &mut block, &found.assoc);
        if let Some(l) = &self.locals {
            if l.file == f {
                let n = self.lost.len();
                crate::locals::apply(l, &mut sig, &mut block, &mut self.lowerings, &mut self.lost);
                if self.lost.len() > n {
                    return;
                }
            }
        }
        if spec.options.iter().any(|o| o == "mutself") {
            // interior mutability: the lock gives exclusive access
            if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
                *r = syn::parse_quote!(&mut self);
            }
        }
        for o in spec.options.iter().filter_map(|o| o.strip_prefix("ptype=")) {
            // the type of a parameter, replaced by its stand-in
            let Some((p, t)) = o.split_once(':') else { continue };
            let t: syn::Type = syn::parse_str(t).expect("ptype");
            let mut hit = false;
            for a in sig.inputs.iter_mut() {
                if let syn::FnArg::Typed(a) = a {
                    if matches!(&*a.pat, syn::Pat::Ident(i) if i.ident == p) {
                        *a.ty = t.clone();
                        hit = true;
                    }
                }
            }
            if hit {
                *self.lowerings.entry("parameter type -> stand-in".to_string()).or_insert(0) += 1;
            } else {
                self.lost.push(format!("{id}: no parameter {p}"));
            }
        }
        if let Some(c) = spec.options.iter().find_map(|o| o.strip_prefix("closure=")) {
            // the closure this function hands over, by name (its body is under contract of its own)
            if !lower::name_moved_closure(&mut block, c) {
                self.lost.push(format!("{id}: not exactly one moved closure"));
                return;
            }
            *self.lowerings.entry("closure handed over -> its name".to_string()).or_insert(0) += 1;
        }
        if let Some((w, names)) = spec.options.iter().find_map(|o| o.strip_prefix("world=")).and_then(|o| o.split_once(':')) {
            // state behind shared handles, threaded as an explicit argument
            let names: Vec<&str> = names.split(',').collect();
            let n = lower::thread_world(&mut block, w, &names);
            *self.lowerings.entry("state behind shared handles -> explicit argument".to_string()).or_insert(0) += n;
            let w = quote::format_ident!("{}", w);
            sig.inputs.push(syn::parse_quote!(#w: &mut VWorld));
        }
        lower::paths_sig(&mut sig, &self.renames, &mut self.lowerings);
        if let Some(r) = &spec.rename {
            sig.ident = syn::Ident::new(r, sig.ident.span());
        }
        let mut text = String::new();
        // vacuity probes: `assert(false)` at the entry or the exit must be refuted by the verifier
        let mut probed = spec.clone();
        let probe = std::env::var("OSMX_PROBE").unwrap_or_default();
        if !trusted && !spec.options.iter().any(|o| o == "noprobe") {
            if probe == "start" {
                probed.start = format!("proof {{ assert(false); }}\n{}", spec.start);
            } else if probe == "tail" && !spec.options.iter().any(|o| o == "noprobe_tail") {
                probed.tail = format!("{}proof {{ assert(false); }}\n", spec.tail);
            }
        }
        let spec = &probed;
        if !trusted {
            // a critical section inside a loop or closure is entered more than once
            struct Sections(usize, bool);
            impl<'ast> syn::visit::Visit<'ast> for Sections {
                fn visit_expr(&mut self, e: &'ast syn::Expr) {
                    use syn::Expr::*;
                    match e {
                        MethodCall(m) if m.method == "lock" && m.args.is_empty() && self.0 > 0 => self.1 = true,
                        _ => {}
                    }
                    let inner = matches!(e, ForLoop(_) | While(_) | Loop(_) | Closure(_));
                    self.0 += inner as usize;
                    syn::visit::visit_expr(self, e);
                    self.0 -= inner as usize;
                }
            }
            let mut sections = Sections(0, false);
            if spec.options.iter().any(|o| o.starts_with("lock=") || o == "cells") {
                syn::visit::Visit::visit_block(&mut sections, &block);
            }
            let mut lw = lower::Lower::new(spec, &self.renames, &mut self.lowerings);
            let nloops = lw.run(&mut block, matches!(sig.output, syn::ReturnType::Default));
            if lw.locks > 1 || sections.1 {
                self.lost.push(format!("{id}: more than one critical section"));
                return;
            }
            let want = spec.loops.keys().max().map(|m| m + 1).unwrap_or(0);
            if nloops != want {
                self.lost.push(format!("{id}: {nloops} loops in the source, {want} under contract"));
                return;
            }
        } else {
            block = syn::parse_quote!({ unimplemented!() });
        }
        // signature text without the body
        let out_ty = match &sig.output {
            syn::ReturnType::Default => None,
            syn::ReturnType::Type(_, t) => Some(t.clone()),
        };
        let mut head_sig = sig.clone();
        head_sig.output = syn::ReturnType::Default;
        let mut head = lower::render_sig(&head_sig);
        if let Some(s) = &spec.sig {
            head = s.trim().to_string();
        } else if let Some(t) = out_ty {
            let ts = lower::render_type(&t);
            match &spec.ret {
                Some(r) => head.push_str(&format!(" -> ({r}: {ts})")),
                None => head.push_str(&format!(" -> {ts}")),
            }
        }
        if !spec.attr.is_empty() {
            text.push_str(&spec.attr);
        }
        if trusted {
            text.push_str("#[verifier::external_body]\n");
        }
        // where clause is not used in this code base
        text.push_str(&format!("pub {head}\n{}", spec.spec));
        let body = lower::render_block(&block);
        let body = lower::splice(&body, spec);
        text.push_str(&body);
        text.push('\n');
        let line = self.out.lines().count() + 1;
        if let Some(ty) = &found.self_ty {
            self.out.push_str(&format!("impl {ty} {{\n{text}}}\n"));
        } else {
            self.out.push_str(&text);
        }
        if trusted {
            self.trusted.push((id, spec.spec.clone()));
        } else {
            let qual = match &found.self_ty {
                Some(t) => format!("{t}::{}", sig.ident),
                None => sig.ident.to_string(),
            };
            self.functions.push((id, qual, line));
        }
    }

    pub fn report(&self) -> String {
        fn esc(s: &str) -> String {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\t' => o.push_str("\\t"),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        let f: Vec<String> = self
            .functions
            .iter()
            .map(|(a, b, l)| format!("{{\"source\": {}, \"name\": {}, \"line\": {}}}", esc(a), esc(b), l))
            .collect();
        let t: Vec<String> = self.trusted.iter().map(|(a, _)| esc(a)).collect();
        let l: Vec<String> = self.lost.iter().map(|a| esc(a)).collect();
        let w: Vec<String> = self.lowerings.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
        format!(
            "{{\"functions\": [{}],\n\"trusted\": [{}],\n\"lost\": [{}],\n\"lowerings\": {{{}}}}}\n",
            f.join(", "),
            t.join(", "),
            l.join(", "),
            w.join(", ")
        )
    }
}
