//! vextract: mechanical extraction of functions from the macro-expanded rexpat source.
//!
//! usage: vextract EXPANDED.rs REQUEST.json > OUT.json
//!
//! For every requested function the body is taken from the syntax tree of the current source and
//! rewritten by the fixed rules below (see DESIGN.md, "What the extraction drops"); nothing in a
//! body is chosen by hand.  Loops get a marker `__vloop!(k)` as first statement of their body so
//! that invariants can be attached by ordinal; everything else is printed as it is.
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn norm<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

#[derive(Clone)]
struct FnRef {
    container: String, // "" | "trait X" | "impl T" | "impl Tr for T" (no spaces inside types)
    module: String,
    attrs_len: usize,
    sig: Signature,
    block: Option<Block>,
}

#[derive(Default)]
struct Index {
    fns: Vec<FnRef>,
    consts: BTreeMap<String, Vec<(String, Type, Expr)>>,
    enums: BTreeMap<String, Vec<(String, ItemEnum)>>,
    structs: BTreeMap<String, Vec<(String, ItemStruct)>>,
}

impl Index {
    fn items(&mut self, module: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        let p = if module.is_empty() { m.ident.to_string() } else { format!("{}::{}", module, m.ident) };
                        self.items(&p, its)
                    }
                }
                Item::Fn(f) => self.fns.push(FnRef {
                    container: String::new(),
                    module: module.into(),
                    attrs_len: f.attrs.len(),
                    sig: f.sig.clone(),
                    block: Some((*f.block).clone()),
                }),
                Item::Const(c) => self.consts.entry(c.ident.to_string()).or_default().push((module.into(), (*c.ty).clone(), (*c.expr).clone())),
                Item::Static(c) => self.consts.entry(c.ident.to_string()).or_default().push((module.into(), (*c.ty).clone(), (*c.expr).clone())),
                Item::Enum(e) => self.enums.entry(e.ident.to_string()).or_default().push((module.into(), e.clone())),
                Item::Struct(e) => self.structs.entry(e.ident.to_string()).or_default().push((module.into(), e.clone())),
                Item::Trait(t) => {
                    for i in &t.items {
                        if let TraitItem::Fn(f) = i {
                            self.fns.push(FnRef {
                                container: format!("trait {}", t.ident),
                                module: module.into(),
                                attrs_len: f.attrs.len(),
                                sig: f.sig.clone(),
                                block: f.default.clone(),
                            })
                        }
                    }
                }
                Item::Impl(t) => {
                    let ty = norm(&t.self_ty);
                    let c = match &t.trait_ {
                        Some((_, p, _)) => format!("impl {} for {}", norm(p), ty),
                        None => format!("impl {}", ty),
                    };
                    for i in &t.items {
                        match i {
                            ImplItem::Fn(f) => self.fns.push(FnRef {
                                container: c.clone(),
                                module: module.into(),
                                attrs_len: f.attrs.len(),
                                sig: f.sig.clone(),
                                block: Some(f.block.clone()),
                            }),
                            ImplItem::Const(k) => self
                                .consts
                                .entry(format!("{}::{}", c, k.ident))
                                .or_default()
                                .push((module.into(), k.ty.clone(), k.expr.clone())),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

struct Rw {
    // methods of `self` that become free functions taking `self_` first
    free: BTreeSet<String>,
    self_name: Option<String>,
    loops: usize,
    ptr_vars: BTreeSet<String>,
    hoist: Vec<String>,
    rename: BTreeMap<String, String>,
    fname: String,
    heap: bool,
    notes: BTreeSet<String>,
    loop_kinds: Vec<String>,
    index_get: bool,
    drop_calls: BTreeSet<String>,
    ptr_eq: bool,
    keep_casts: BTreeSet<String>,
}

fn last_seg(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn is_ptr_ty(t: &Type) -> bool {
    matches!(t, Type::Ptr(_))
}

impl Rw {
    fn is_ptr_expr(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.ptr_vars.contains(&i.to_string())),
            Expr::Paren(p) => self.is_ptr_expr(&p.expr),
            Expr::Cast(c) => is_ptr_ty(&c.ty),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if matches!(n.as_str(), "as_ptr" | "as_mut_ptr" | "end") {
                    return true;
                }
                matches!(n.as_str(), "offset" | "add" | "wrapping_add" | "wrapping_offset" | "sub") && self.is_ptr_expr(&m.receiver)
            }
            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(e, None) => self.is_ptr_expr(e),
                _ => false,
            },
            _ => false,
        }
    }
    fn collect_ptr_vars(&mut self, b: &Block) {
        struct C<'a>(&'a mut BTreeSet<String>);
        impl<'a, 'ast> Visit<'ast> for C<'a> {
            fn visit_local(&mut self, l: &'ast Local) {
                if let Pat::Type(pt) = &l.pat {
                    if is_ptr_ty(&pt.ty) {
                        if let Pat::Ident(i) = &*pt.pat {
                            self.0.insert(i.ident.to_string());
                        }
                    }
                } else if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    // let p = <expr ending in .as_ptr()/.as_mut_ptr()/.offset()>, or a copy of a pointer variable
                    let known = match &*init.expr {
                        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "as_ptr" | "as_mut_ptr"),
                        Expr::Path(p) => p.path.get_ident().map_or(false, |x| self.0.contains(&x.to_string())),
                        _ => false,
                    };
                    if known {
                        self.0.insert(i.ident.to_string());
                    }
                }
                syn::visit::visit_local(self, l)
            }
        }
        C(&mut self.ptr_vars).visit_block(b)
    }
    fn mark(&mut self, b: &mut Block, kind: &str) {
        let k = self.loops;
        self.loops += 1;
        self.loop_kinds.push(kind.into());
        let lit = LitInt::new(&k.to_string(), Span::call_site());
        b.stmts.insert(0, parse_quote!(__vloop!(#lit);));
    }
}

impl VisitMut for Rw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local enums are hoisted, local impls (derive output) dropped, local statics become lets
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Enum(mut e)) => {
                    let new = format!("{}_{}", self.fname, e.ident);
                    self.rename.insert(e.ident.to_string(), new.clone());
                    e.ident = Ident::new(&new, Span::call_site());
                    e.attrs.clear();
                    self.hoist.push(e.to_token_stream().to_string());
                }
                Stmt::Item(Item::Impl(_)) => {}
                Stmt::Item(Item::Macro(_)) => {}
                Stmt::Item(Item::Static(st)) => {
                    let (i, t, e) = (&st.ident, &st.ty, &st.expr);
                    out.push(parse_quote!(let #i: #t = #e;));
                }
                Stmt::Item(Item::Const(st)) => {
                    let (i, t, e) = (&st.ident, &st.ty, &st.expr);
                    out.push(parse_quote!(let #i: #t = #e;));
                }
                Stmt::Macro(m) if last_seg(&m.mac.path) == "debug_assert" => {
                    let _ = m;
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        match t {
            Type::Ptr(_) => *t = parse_quote!(Ptr),
            Type::Path(p) => {
                let n = last_seg(&p.path);
                if n == "ExpatBufRef" {
                    *t = parse_quote!(Buf)
                } else if n == "ExpatBufRefMut" {
                    let s = norm(t);
                    if s.contains("u16") || s.contains("c_ushort") {
                        *t = parse_quote!(MutBuf16)
                    } else {
                        *t = parse_quote!(MutBuf)
                    }
                }
            }
            _ => {}
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // libc::c_int -> c_int ; super::xmltok::XML_TOK::X -> XML_TOK::X  (lower-case module prefixes are dropped)
        while p.segments.len() > 1 {
            let s = p.segments[0].ident.to_string();
            if s.starts_with(|c: char| c.is_ascii_lowercase()) && s != "self" || s == "crate" || s == "super" {
                p.leading_colon = None;
                p.segments = p.segments.iter().skip(1).cloned().collect();
            } else {
                break;
            }
        }
        if let Some(f) = p.segments.first_mut() {
            if let Some(n) = self.rename.get(&f.ident.to_string()) {
                f.ident = Ident::new(n, Span::call_site());
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- pre-order rewrites
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = last_seg(&p.path);
                    if n == "begin_panic" || n == "begin_panic_fmt" || n == "panic" || n == "panic_fmt" {
                        *e = parse_quote!(vpanic());
                        return;
                    }
                    if self.drop_calls.contains(&n) {
                        self.notes.insert(format!("dropped call {}", n));
                        *e = parse_quote!({});
                        return;
                    }
                }
            }
            Expr::Assign(a) => {
                let mut lhs = (*a.left).clone();
                while let Expr::Paren(p) = lhs { lhs = *p.expr; }
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &lhs {
                    if self.heap && self.is_ptr_expr(expr) {
                        let mut p = (**expr).clone();
                        let mut v = (*a.right).clone();
                        self.visit_expr_mut(&mut p);
                        self.visit_expr_mut(&mut v);
                        *e = parse_quote!(heap.wr(#p, #v));
                        return;
                    }
                }
                if let Expr::Index(ix) = &lhs {
                    if self.index_get {
                        let mut b = (*ix.expr).clone();
                        let mut i = (*ix.index).clone();
                        let mut v = (*a.right).clone();
                        if let Expr::Path(p) = &b {
                            if p.path.get_ident().map_or(false, |x| x == "to" || x == "to_buf") {
                                self.visit_expr_mut(&mut b);
                                self.visit_expr_mut(&mut i);
                                self.visit_expr_mut(&mut v);
                                *e = parse_quote!(#b.set_at(#i, #v));
                                return;
                            }
                        }
                    }
                }
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if self.is_ptr_expr(expr) {
                    let mut p = (**expr).clone();
                    // a cast directly under the dereference selects the width/sign of the read
                    let mut kind = "rd";
                    while let Expr::Paren(q) = p { p = *q.expr; }
                    if let Some(k) = read_kind(&p) { kind = k; }
                    self.visit_expr_mut(&mut p);
                    let m = Ident::new(kind, Span::call_site());
                    *e = if self.heap { parse_quote!(heap.#m(#p)) } else { parse_quote!((#p).#m()) };
                    return;
                }
            }
            Expr::Index(ix) if self.index_get => {
                if let Expr::Path(p) = &*ix.expr {
                    if p.path.get_ident().map_or(false, |x| x == "from" || x == "from_buf" || x == "buf") {
                        let (b, mut i) = ((*ix.expr).clone(), (*ix.index).clone());
                        self.visit_expr_mut(&mut i);
                        *e = parse_quote!(#b.at(#i));
                        return;
                    }
                }
            }
            Expr::Cast(c) if is_ptr_ty(&c.ty) => {
                // pointer-to-pointer casts do not change the address
                let mut inner = (*c.expr).clone();
                while let Expr::Paren(q) = inner { inner = *q.expr; }
                if let Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) = &inner {
                    if l.base10_digits() == "0" {
                        *e = parse_quote!(null());
                        return;
                    }
                }
                self.visit_expr_mut(&mut inner);
                if let Type::Ptr(t) = &*c.ty {
                    // a cast that reinterprets memory stays visible where it is asked for
                    if let Type::Path(tp) = &*t.elem {
                        let n = last_seg(&tp.path);
                        if self.keep_casts.contains(&n) {
                            let f = Ident::new(&format!("cast_{}", n), Span::call_site());
                            *e = parse_quote!(#f(#inner));
                            return;
                        }
                    }
                }
                *e = inner;
                return;
            }
            Expr::Binary(b) => {
                if self.ptr_eq && (self.is_ptr_expr(&b.left) || self.is_ptr_expr(&b.right)) {
                    let f = match b.op {
                        BinOp::Eq(_) => Some("ptr_eq"),
                        BinOp::Ne(_) => Some("ptr_ne"),
                        BinOp::Lt(_) => Some("ptr_lt"),
                        BinOp::Le(_) => Some("ptr_le"),
                        BinOp::Gt(_) => Some("ptr_gt"),
                        BinOp::Ge(_) => Some("ptr_ge"),
                        _ => None,
                    };
                    if let Some(f) = f {
                        let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                        self.visit_expr_mut(&mut l);
                        self.visit_expr_mut(&mut r);
                        let f = Ident::new(f, Span::call_site());
                        *e = parse_quote!(#f(#l, #r));
                        return;
                    }
                }
            }
            _ => {}
        }
        if let Expr::Match(m) = e {
            // `A | B if g => x` is printed as two arms
            let mut arms = vec![];
            for a in std::mem::take(&mut m.arms) {
                match (&a.pat, &a.guard) {
                    (Pat::Or(o), Some(_)) => {
                        for c in &o.cases {
                            let mut b = a.clone();
                            b.pat = c.clone();
                            arms.push(b);
                        }
                    }
                    _ => arms.push(a),
                }
            }
            m.arms = arms;
        }
        if let Expr::ForLoop(f) = e {
            // for x in SLICE  ->  index loop (the increment comes first, so `continue` keeps its meaning)
            if !matches!(&*f.expr, Expr::Range(_)) {
                let it = &f.expr;
                let pat = &f.pat;
                let lab = &f.label;
                let iv = Ident::new(&format!("vidx{}", self.loops), Span::call_site());
                let mut b = f.body.clone();
                let mut pre: Vec<Stmt> = vec![parse_quote!(let #pat = &#it[#iv];), parse_quote!(#iv = #iv + 1;)];
                pre.append(&mut b.stmts);
                b.stmts = pre;
                self.mark(&mut b, "for");
                self.notes.insert("for loop over a slice rewritten to an index loop".into());
                let w: Expr = parse_quote!({ let mut #iv: usize = 0; #lab while #iv < #it.len() #b });
                *e = w;
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            self.mark(&mut f.body, "range");
        }
        match e {
            Expr::While(w) => {
                // already marked when produced by the for-loop rule
                if !marked(&w.body) {
                    self.mark(&mut w.body, "while");
                }
            }
            Expr::Loop(w) => self.mark(&mut w.body, "loop"),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // --- post-order rewrites
        match e {
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
            Expr::MethodCall(m) => {
                if let Expr::Path(p) = &*m.receiver {
                    let is_self = p.path.is_ident("self") || self.self_name.as_ref().map_or(false, |s| p.path.is_ident(s));
                    if is_self && self.free.contains(&m.method.to_string()) {
                        let f = &m.method;
                        let a = &m.args;
                        let r = &m.receiver;
                        *e = parse_quote!(#f(#r, #a));
                    }
                }
            }
            Expr::Path(p) => {
                if let Some(s) = &self.self_name {
                    if p.path.is_ident("self") {
                        let i = Ident::new(s, Span::call_site());
                        *e = parse_quote!(#i);
                    }
                }
            }
            _ => {}
        }
    }
}

fn marked(b: &Block) -> bool {
    matches!(b.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vloop"))
}

fn read_kind(e: &Expr) -> Option<&'static str> {
    match e {
        Expr::Cast(c) => {
            let s = norm(&c.ty);
            if s.contains("u8") || s.contains("c_uchar") { Some("rd_u8") } else { Some("rd") }
        }
        Expr::Paren(p) => read_kind(&p.expr),
        Expr::MethodCall(m) if m.method == "offset" || m.method == "add" => read_kind(&m.receiver),
        _ => None,
    }
}

struct Calls(BTreeSet<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.insert(last_seg(&p.path));
        }
        syn::visit::visit_expr_call(self, c)
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        self.0.insert(format!(".{}", c.method));
        syn::visit::visit_expr_method_call(self, c)
    }
}

fn strset(v: &Value) -> BTreeSet<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("expanded source");
    let file = match parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            println!("{}", json!({"fatal": format!("cannot parse expanded source: {} at {:?}", e, e.span().start())}));
            return;
        }
    };
    let req: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("request")).expect("json");
    let mut ix = Index::default();
    ix.items("", &file.items);

    let mut out = Map::new();
    let mut fns = Map::new();
    for r in req["functions"].as_array().unwrap_or(&vec![]) {
        let key = r["key"].as_str().unwrap().to_string();
        let name = r["name"].as_str().unwrap_or(&key).to_string();
        let container = r["container"].as_str().unwrap_or("").to_string();
        let cands: Vec<&FnRef> = ix
            .fns
            .iter()
            .filter(|f| f.sig.ident == name.as_str() && f.container == container && f.block.is_some())
            .filter(|f| r["module"].as_str().map_or(true, |m| f.module == m))
            .collect();
        if cands.len() != 1 {
            fns.insert(key, json!({"error": format!("lost anchor: {} definitions of `{}` in `{}`", cands.len(), name, container)}));
            continue;
        }
        let f = cands[0];
        let mut rw = Rw {
            free: strset(&r["free"]),
            self_name: r["self_name"].as_str().map(|s| s.to_string()),
            loops: 0,
            ptr_vars: strset(&r["ptr_vars"]),
            hoist: vec![],
            rename: BTreeMap::new(),
            fname: name.clone(),
            heap: r["heap"].as_bool().unwrap_or(false),
            notes: BTreeSet::new(),
            loop_kinds: vec![],
            index_get: r["index_get"].as_bool().unwrap_or(false),
            drop_calls: strset(&r["drop_calls"]),
            ptr_eq: r["ptr_eq"].as_bool().unwrap_or(true),
            keep_casts: strset(&r["keep_casts"]),
        };
        if let Some(m) = r["rename"].as_object() {
            for (k, v) in m { rw.rename.insert(k.clone(), v.as_str().unwrap().to_string()); }
        }
        let mut params = vec![];
        for p in &f.sig.inputs {
            match p {
                FnArg::Receiver(rc) => params.push(json!({"name": "self", "ty": rc.to_token_stream().to_string(), "mut": false})),
                FnArg::Typed(pt) => {
                    let mut ty = (*pt.ty).clone();
                    let (n, m) = match &*pt.pat {
                        Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                        o => (norm(o), false),
                    };
                    if is_ptr_ty(&ty) {
                        rw.ptr_vars.insert(n.clone());
                    }
                    rw.visit_type_mut(&mut ty);
                    params.push(json!({"name": n, "ty": strip_lt(&ty.to_token_stream().to_string()), "mut": m}));
                }
            }
        }
        let ret = match &f.sig.output {
            ReturnType::Default => "()".to_string(),
            ReturnType::Type(_, t) => {
                let mut t = (**t).clone();
                rw.visit_type_mut(&mut t);
                strip_lt(&t.to_token_stream().to_string())
            }
        };
        let mut block = f.block.clone().unwrap();
        rw.collect_ptr_vars(&block);
        rw.collect_ptr_vars(&block.clone());
        if let Some(a) = r["arm"].as_str() {
            // one arm of a `match`: its body
            let mut fa = Arms { name: a.to_string(), found: vec![] };
            fa.visit_block(&block);
            let n = r["arm_n"].as_u64().unwrap_or(0) as usize;
            if fa.found.len() <= n || r["arms"].as_u64().map_or(false, |k| k as usize != fa.found.len()) {
                fns.insert(key, json!({"error": format!("lost anchor: {} arms for `{}` in `{}`", fa.found.len(), a, name)}));
                continue;
            }
            block = match fa.found.swap_remove(n) {
                Expr::Block(b) => b.block,
                e => parse_quote!({ #e }),
            };
        }
        // arms that are under a contract of their own: a call stands for each
        let hide = strset(&r["hide"]);
        if !hide.is_empty() {
            let mut h = Hide { names: hide.clone(), found: BTreeSet::new() };
            h.visit_block_mut(&mut block);
            if h.found != hide {
                fns.insert(key, json!({"error": format!("lost anchor: arms {:?} in `{}`", hide.difference(&h.found).collect::<Vec<_>>(), name)}));
                continue;
            }
        }
        let mut calls = Calls(BTreeSet::new());
        calls.visit_block(&block);
        rw.visit_block_mut(&mut block);
        let body: TokenStream = quote!(#block);
        fns.insert(
            key,
            json!({
                "name": name, "container": container, "module": f.module,
                "params": params, "ret": ret, "body": strip_lt(&body.to_string()),
                "loops": rw.loops, "loop_kinds": rw.loop_kinds, "hoist": rw.hoist,
                "notes": rw.notes.iter().cloned().collect::<Vec<_>>(),
                "calls": calls.0.iter().cloned().collect::<Vec<_>>(),
                "unsafe": f.sig.unsafety.is_some(), "attrs": f.attrs_len,
            }),
        );
    }
    out.insert("functions".into(), Value::Object(fns));

    let mut cs = Map::new();
    for c in req["consts"].as_array().unwrap_or(&vec![]) {
        let n = c.as_str().unwrap();
        if let Some(prefix) = n.strip_suffix('*') {
            for (k, v) in ix.consts.iter().filter(|(k, _)| k.starts_with(prefix)) {
                let mut seen: Vec<String> = v.iter().map(|x| norm(&x.2)).collect();
                seen.dedup();
                if seen.len() == 1 {
                    cs.insert(k.clone(), json!({"ty": v[0].1.to_token_stream().to_string(), "expr": v[0].2.to_token_stream().to_string()}));
                }
            }
            continue;
        }
        match ix.consts.get(n) {
            Some(v) => {
                cs.insert(n.into(), json!({"ty": v[0].1.to_token_stream().to_string(), "expr": v[0].2.to_token_stream().to_string(), "n": v.len()}));
            }
            None => {
                cs.insert(n.into(), json!({"error": "lost anchor"}));
            }
        }
    }
    out.insert("consts".into(), Value::Object(cs));

    let mut es = Map::new();
    for c in req["enums"].as_array().unwrap_or(&vec![]) {
        let n = c.as_str().unwrap();
        match ix.enums.get(n) {
            Some(v) if v.len() == 1 => {
                let vars: Vec<Value> = v[0]
                    .1
                    .variants
                    .iter()
                    .map(|x| json!([x.ident.to_string(), x.discriminant.as_ref().map(|d| d.1.to_token_stream().to_string())]))
                    .collect();
                es.insert(n.into(), json!({"variants": vars}));
            }
            _ => {
                es.insert(n.into(), json!({"error": "lost anchor"}));
            }
        }
    }
    out.insert("enums".into(), Value::Object(es));

    let mut ss = Map::new();
    for c in req["structs"].as_array().unwrap_or(&vec![]) {
        let n = c.as_str().unwrap();
        match ix.structs.get(n) {
            Some(v) if v.len() == 1 => {
                let fs: Vec<Value> = v[0].1.fields.iter().map(|x| json!([x.ident.as_ref().map(|i| i.to_string()), norm(&x.ty)])).collect();
                ss.insert(n.into(), json!({"fields": fs}));
            }
            _ => {
                ss.insert(n.into(), json!({"error": "lost anchor"}));
            }
        }
    }
    out.insert("structs".into(), Value::Object(ss));
    if req["list"].as_bool().unwrap_or(false) {
        out.insert("list".into(), Value::Array(ix.fns.iter().map(|f| json!([f.module, f.container, f.sig.ident.to_string()])).collect()));
    }
    println!("{}", Value::Object(out));
}

struct Arms { name: String, found: Vec<Expr> }
fn pat_names(p: &Pat, ids: &mut Vec<String>) {
    match p {
        Pat::Or(o) => for c in &o.cases { pat_names(c, ids) },
        Pat::Path(q) => ids.push(last_seg(&q.path)),
        Pat::Ident(i) => ids.push(i.ident.to_string()),
        _ => {}
    }
}
struct Hide { names: BTreeSet<String>, found: BTreeSet<String> }
impl VisitMut for Hide {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let mut ids = vec![];
        pat_names(&a.pat, &mut ids);
        if let Some(n) = ids.iter().find(|n| self.names.contains(*n)) {
            self.found.insert(n.clone());
            let f = Ident::new(&format!("arm_{}", n), Span::call_site());
            *a.body = parse_quote!({ #f(); });
            return;
        }
        visit_mut::visit_arm_mut(self, a);
    }
}
impl<'ast> Visit<'ast> for Arms {
    fn visit_arm(&mut self, a: &'ast Arm) {
        let mut ids = vec![];
        pat_names(&a.pat, &mut ids);
        if ids.contains(&self.name) { self.found.push((*a.body).clone()); }
        visit::visit_arm(self, a);
    }
}

/// lifetimes carry no run-time meaning: `& 'a T` -> `& T`
fn strip_lt(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            // lifetime or char literal / loop label
            let rest: String = it.clone().take(3).collect();
            let r: Vec<char> = rest.chars().collect();
            let is_char = r.len() >= 2 && (r[1] == '\'' || r[0] == '\\');
            let is_label = false;
            if is_char {
                o.push(c);
                let mut esc = false;
                while let Some(d) = it.next() {
                    o.push(d);
                    if esc { esc = false } else if d == '\\' { esc = true } else if d == '\'' { break }
                }
                continue;
            }
            if !is_char && !is_label {
                let mut id = String::new();
                while let Some(d) = it.peek() {
                    if d.is_alphanumeric() || *d == '_' { id.push(*d); it.next(); } else { break }
                }
                // keep loop labels
                let tail: String = it.clone().take(2).collect();
                let before = o.trim_end();
                if tail.trim_start().starts_with(':') || before.ends_with("break") || before.ends_with("continue") {
                    o.push('\'');
                    o.push_str(&id);
                }
                continue;
            }
        }
        o.push(c);
    }
    o
}
