//! Fixed rewrite rules (see DESIGN.md "What the extraction changes").
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// names that stay real std paths: (first segment std|core|alloc) second segment
const KEEP_STD: &[&str] = &["ops", "option", "result", "vec", "boxed", "clone", "marker", "cmp", "default", "string", "slice", "primitive"];
const DROP_TRAITS: &[&str] = &["Debug", "Display", "Error", "TrivialClone", "StructuralPartialEq", "StructuralEq", "Hash"];
/// methods of std types replaced by a shim extension method with a contract
const RENAME: &[(&str, &str)] = &[
    ("to_vec", "v_to_vec"),
    ("extend", "v_extend"),
    ("extend_from_slice", "v_extend"),
    ("try_into", "v_try_into"),
    ("clone_from_slice", "copy_from_slice"),
    ("to_owned", "v_to_vec"),
    ("to_le_bytes", "v_to_le_bytes"),
    ("to_be_bytes", "v_to_be_bytes"),
    ("to_ne_bytes", "v_to_le_bytes"),
];

pub fn apply(f: &mut File, log: &mut Vec<String>) {
    let items = std::mem::take(&mut f.items);
    f.items = drop_items(items, "", log);
    let mut r = Rw { log, tmp: 0 };
    r.visit_file_mut(f);
}

pub fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn has_derived(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

fn drop_items(items: Vec<Item>, m: &str, log: &mut Vec<String>) -> Vec<Item> {
    let mut out = vec![];
    for it in items {
        match it {
            Item::Mod(mut md) => {
                if let Some((b, its)) = md.content.take() {
                    let p = if m.is_empty() { md.ident.to_string() } else { format!("{}::{}", m, md.ident) };
                    md.content = Some((b, drop_items(its, &p, log)));
                }
                md.attrs.clear();
                out.push(Item::Mod(md));
            }
            Item::Impl(i) => {
                if let Some((_, p, _)) = &i.trait_ {
                    let l = last(p);
                    if DROP_TRAITS.contains(&l.as_str()) {
                        if !has_derived(&i.attrs) {
                            log.push(format!("dropped impl {} for {} (formatting/error description only) in {}", l, ts(&*i.self_ty), m));
                        }
                        continue;
                    }
                }
                out.push(Item::Impl(i));
            }
            Item::Macro(_) | Item::ExternCrate(_) => {}
            o => out.push(o),
        }
    }
    out
}

/// R13: nested `fn` items become module-level functions `<outer>__<inner>`.
pub fn hoist_nested(items: &mut Vec<Item>, m: &str, known: &BTreeSet<String>, log: &mut Vec<String>) {
    let _ = known;
    let mut extra: Vec<Item> = vec![];
    for it in items.iter_mut() {
        match it {
            Item::Mod(md) => {
                let p = if m.is_empty() { md.ident.to_string() } else { format!("{}::{}", m, md.ident) };
                if let Some((_, its)) = &mut md.content {
                    hoist_nested(its, &p, known, log);
                }
            }
            Item::Fn(f) => {
                let n = f.sig.ident.to_string();
                hoist_block(&mut f.block, &n, &mut extra, m, log);
            }
            Item::Impl(i) => {
                if has_derived(&i.attrs) {
                    continue;
                }
                for x in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        let n = f.sig.ident.to_string();
                        hoist_block(&mut f.block, &n, &mut extra, m, log);
                    }
                }
            }
            Item::Trait(t) => {
                for x in t.items.iter_mut() {
                    if let TraitItem::Fn(f) = x {
                        let n = f.sig.ident.to_string();
                        if let Some(b) = &mut f.default {
                            hoist_block(b, &n, &mut extra, m, log);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    items.extend(extra);
}

fn hoist_block(b: &mut Block, outer: &str, extra: &mut Vec<Item>, m: &str, log: &mut Vec<String>) {
    struct H<'a> {
        outer: &'a str,
        names: Vec<(String, String)>,
        items: Vec<Item>,
    }
    impl<'a> VisitMut for H<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let old = std::mem::take(&mut b.stmts);
            for s in old {
                match s {
                    Stmt::Item(Item::Fn(mut f)) => {
                        let n = f.sig.ident.to_string();
                        let nn = format!("{}__{}", self.outer, n);
                        f.sig.ident = Ident::new(&nn, f.sig.ident.span());
                        self.names.push((n, nn));
                        visit_mut::visit_block_mut(self, &mut f.block);
                        self.items.push(Item::Fn(f));
                    }
                    Stmt::Item(Item::Const(mut c)) => {
                        let n = c.ident.to_string();
                        let nn = format!("{}__{}", self.outer, n);
                        c.ident = Ident::new(&nn, c.ident.span());
                        self.names.push((n, nn));
                        self.items.push(Item::Const(c));
                    }
                    Stmt::Item(Item::Macro(_)) => {}
                    other => b.stmts.push(other),
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    struct R<'a>(&'a [(String, String)]);
    impl<'a> VisitMut for R<'a> {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if let Some((_, nn)) = self.0.iter().find(|(a, _)| *a == n) {
                    p.path.segments[0].ident = Ident::new(nn, p.path.segments[0].ident.span());
                }
            }
            visit_mut::visit_expr_path_mut(self, p);
        }
    }
    let mut h = H { outer, names: vec![], items: vec![] };
    h.visit_block_mut(b);
    if h.names.is_empty() {
        return;
    }
    let names = h.names.clone();
    R(&names).visit_block_mut(b);
    for mut i in h.items {
        R(&names).visit_item_mut(&mut i);
        if let Item::Fn(f) = &i {
            log.push(format!("hoisted nested fn {} in {}", f.sig.ident, m));
        }
        extra.push(i);
    }
}

struct Rw<'a> {
    log: &'a mut Vec<String>,
    tmp: usize,
}

fn call_path(e: &Expr) -> Option<(String, &syn::punctuated::Punctuated<Expr, Token![,]>)> {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            return Some((ts(&p.path).replace(' ', ""), &c.args));
        }
    }
    None
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

fn is_panic(e: &Expr) -> bool {
    match call_path(e) {
        Some((p, _)) => p.contains("core::panicking::") || p.contains("::rt::begin_panic") || p.contains("rt::panic_fmt") || p.contains("rt::panic_display"),
        None => false,
    }
}

fn method<'a>(e: &'a Expr, name: &str) -> Option<&'a ExprMethodCall> {
    if let Expr::MethodCall(m) = strip_paren(e) {
        if m.method == name {
            return Some(m);
        }
    }
    None
}

fn pat_ident(p: &Pat) -> Option<Ident> {
    match p {
        Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.clone()),
        Pat::Reference(r) => pat_ident(&r.pat),
        Pat::Paren(r) => pat_ident(&r.pat),
        Pat::Type(r) => pat_ident(&r.pat),
        _ => None,
    }
}

/// replace `*x` by `repl` everywhere in an expression (used when an iterator
/// variable `x: &mut T` or `x: &T` becomes an indexed place)
struct DerefSubst<'a> {
    name: &'a Ident,
    repl: Expr,
    bare: bool, // also replace bare uses by the place (pattern `&x`)
}
impl<'a> VisitMut for DerefSubst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Path(p) = strip_paren(&u.expr) {
                    if p.path.is_ident(self.name) {
                        *e = self.repl.clone();
                        return;
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(self.name) && self.bare {
                *e = self.repl.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Rw<'a> {
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        Ident::new(&format!("__{}{}", p, self.tmp), proc_macro2::Span::call_site())
    }

    /// `A.iter[_mut]().zip(B.iter[_mut]())` -> (A, B)
    fn zip_parts(e: &Expr) -> Option<(Expr, Expr)> {
        let z = method(e, "zip")?;
        let a = strip_paren(&z.receiver);
        let a = method(a, "iter").or_else(|| method(a, "iter_mut"))?;
        let b0 = z.args.first()?;
        let b = match method(b0, "iter").or_else(|| method(b0, "iter_mut")) {
            Some(m) => (*m.receiver).clone(),
            None => match strip_paren(b0) {
                Expr::Reference(r) => (*r.expr).clone(),
                o => o.clone(),
            },
        };
        Some(((*a.receiver).clone(), b))
    }

    fn subst_elem(pat: &Pat, place: Expr, body: &mut Expr) -> Option<()> {
        let (inner, bare) = match pat {
            Pat::Reference(r) => (&*r.pat, true),
            p => (p, false),
        };
        match inner {
            Pat::Wild(_) => Some(()),
            p => {
                let id = pat_ident(p)?;
                DerefSubst { name: &id, repl: place, bare }.visit_expr_mut(body);
                Some(())
            }
        }
    }

    fn two(pat: &Pat) -> Option<(Pat, Pat)> {
        match pat {
            Pat::Tuple(t) if t.elems.len() == 2 => Some((t.elems[0].clone(), t.elems[1].clone())),
            Pat::Paren(p) => Self::two(&p.pat),
            Pat::Type(p) => Self::two(&p.pat),
            _ => None,
        }
    }

    /// R7a: `A.iter_mut().zip(B.iter()).for_each(|(p, q)| body)` -> index loop
    fn for_each(&mut self, e: &Expr) -> Option<Expr> {
        let fe = method(e, "for_each")?;
        let (a, b) = Self::zip_parts(&fe.receiver)?;
        let c = match fe.args.first()? {
            Expr::Closure(c) => c,
            _ => return None,
        };
        let (p, q) = Self::two(c.inputs.first()?)?;
        let i = self.fresh("k");
        let mut body = (*c.body).clone();
        Self::subst_elem(&p, parse_quote!(#a[#i]), &mut body)?;
        Self::subst_elem(&q, parse_quote!(#b[#i]), &mut body)?;
        self.log.push("iterator zip/for_each rewritten to an index loop".into());
        Some(parse_quote!({
            for #i in 0..crate::vshim::vmin(#a.len(), #b.len()) {
                #body;
            }
        }))
    }

    fn chunk_loop(&mut self, l: &ExprForLoop) -> Option<Expr> {
        let c = method(&l.expr, "chunks")?;
        let recv = &*c.receiver;
        let n = c.args.first()?;
        let id = pat_ident(&l.pat)?;
        let k = self.fresh("pos");
        let hi = self.fresh("hi");
        let stmts = &l.body.stmts;
        let lab = &l.label;
        self.log.push("for over slice::chunks(n) rewritten to an index loop".into());
        Some(parse_quote!({
            let mut #k: usize = 0;
            #lab while #k < #recv.len() {
                let #hi: usize = if #recv.len() - #k < #n { #recv.len() } else { #k + #n };
                let #id = &#recv[#k..#hi];
                #k = #hi;
                #(#stmts)*
            }
        }))
    }

    /// R7b: `for (i, v) in X.iter_mut().enumerate().take(N) { .. *v .. }`
    fn enum_loop(&mut self, l: &ExprForLoop) -> Option<Expr> {
        let mut it: &Expr = strip_paren(&l.expr);
        let mut take: Option<Expr> = None;
        if let Some(t) = method(it, "take") {
            take = Some(t.args.first()?.clone());
            it = strip_paren(&t.receiver);
        }
        let en = method(it, "enumerate")?;
        let im = method(&en.receiver, "iter_mut").or_else(|| method(&en.receiver, "iter"))?;
        let (pi, pv) = Self::two(&l.pat)?;
        let i = pat_ident(&pi)?;
        let x = &*im.receiver;
        let mut body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: l.body.clone() });
        Self::subst_elem(&pv, parse_quote!(#x[#i]), &mut body)?;
        let blk = match body {
            Expr::Block(b) => b.block,
            _ => return None,
        };
        self.log.push("for over iter_mut().enumerate() rewritten to an index loop".into());
        let hi: Expr = match take {
            Some(t) => parse_quote!(crate::vshim::vmin(#x.len(), #t)),
            None => parse_quote!(#x.len()),
        };
        let lab = &l.label;
        Some(parse_quote!(#lab for #i in 0..#hi #blk))
    }

    /// R7d: `for (p, q) in A.iter_mut().zip(B.iter()) { .. }` -> index loop
    fn zip_loop(&mut self, l: &ExprForLoop) -> Option<Expr> {
        let (a, b) = Self::zip_parts(strip_paren(&l.expr))?;
        let (p, q) = Self::two(&l.pat)?;
        let i = self.fresh("k");
        let mut body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: l.body.clone() });
        Self::subst_elem(&p, parse_quote!(#a[#i]), &mut body)?;
        Self::subst_elem(&q, parse_quote!(#b[#i]), &mut body)?;
        let blk = match body {
            Expr::Block(b) => b.block,
            _ => return None,
        };
        self.log.push("for over iter().zip() rewritten to an index loop".into());
        let lab = &l.label;
        Some(parse_quote!(#lab for #i in 0..crate::vshim::vmin(#a.len(), #b.len()) #blk))
    }

    /// R7c in a block: `let NAME = A.iter().zip(B.iter()).map(|(&x,&y)| e); R.extend(NAME);`
    /// and `R.extend(A.iter().zip(B.iter()).map(..))`
    fn map_extend(&mut self, r: &Expr, it: &Expr) -> Option<Stmt> {
        let mp = method(it, "map")?;
        let (a, b) = Self::zip_parts(&mp.receiver)?;
        let c = match mp.args.first()? {
            Expr::Closure(c) => c,
            _ => return None,
        };
        let (p, q) = Self::two(c.inputs.first()?)?;
        let i = self.fresh("k");
        let mut body = (*c.body).clone();
        Self::subst_elem(&p, parse_quote!(#a[#i]), &mut body)?;
        Self::subst_elem(&q, parse_quote!(#b[#i]), &mut body)?;
        self.log.push("iterator zip/map/extend rewritten to an index loop".into());
        Some(parse_quote!(
            for #i in 0..crate::vshim::vmin(#a.len(), #b.len()) {
                #r.push(#body);
            }
        ))
    }
}

fn uses_ident(b: &[Stmt], id: &Ident) -> usize {
    struct C<'a>(&'a Ident, usize);
    impl<'a, 'ast> syn::visit::Visit<'ast> for C<'a> {
        fn visit_expr_path(&mut self, p: &'ast ExprPath) {
            if p.path.is_ident(self.0) {
                self.1 += 1;
            }
        }
    }
    let mut c = C(id, 0);
    for s in b {
        syn::visit::Visit::visit_stmt(&mut c, s);
    }
    c.1
}

/// R15: a body's final `return e;` is its tail expression
fn tail_return(b: &mut Block) {
    if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
        if let Some(e) = r.expr.clone() {
            b.stmts.pop();
            b.stmts.push(Stmt::Expr(*e, None));
        }
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|x| x.path().is_ident("automatically_derived"));
    }
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}

    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        if has_derived(&i.attrs) {
            // R19 a derived Default is verified as the compiler expands it
            match &mut i.trait_ {
                Some((_, p, _)) if last(p) == "Default" => *p = parse_quote!(Default),
                _ => return,
            }
        }
        visit_mut::visit_item_impl_mut(self, i);
    }

    fn visit_item_use_mut(&mut self, _u: &mut ItemUse) {}

    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        self.tmp = 0;
        tail_return(&mut f.block);
        visit_mut::visit_item_fn_mut(self, f);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        self.tmp = 0;
        tail_return(&mut f.block);
        visit_mut::visit_impl_item_fn_mut(self, f);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        self.tmp = 0;
        if let Some(b) = &mut f.default {
            tail_return(b);
        }
        visit_mut::visit_trait_item_fn_mut(self, f);
    }

    // R18: a parameter `&mut dyn T` is `&mut impl T` (static instead of virtual dispatch)
    fn visit_fn_arg_mut(&mut self, a: &mut FnArg) {
        visit_mut::visit_fn_arg_mut(self, a);
        if let FnArg::Typed(p) = a {
            if let Type::Reference(r) = &mut *p.ty {
                if r.mutability.is_some() {
                    let t = match &*r.elem {
                        Type::Paren(q) => (*q.elem).clone(),
                        t => t.clone(),
                    };
                    if let Type::TraitObject(o) = t {
                        let b = &o.bounds;
                        r.elem = Box::new(parse_quote!(impl #b));
                    }
                }
            }
        }
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        // R11: drop auto-trait and lifetime bounds of trait objects
        if let Type::TraitObject(o) = t {
            let n = o.bounds.len();
            let keep: Vec<TypeParamBound> = o
                .bounds
                .iter()
                .filter(|b| match b {
                    TypeParamBound::Trait(t) => !["Send", "Sync", "Unpin"].contains(&last(&t.path).as_str()),
                    _ => false,
                })
                .cloned()
                .collect();
            if keep.len() != n {
                o.bounds = keep.into_iter().collect();
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            // u24/primitive aliases need nothing
            let _ = p;
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() < 2 {
            return;
        }
        let s: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
        let first = s[0].as_str();
        if first == "enum_primitive" && s[1] == "Option" {
            // ::enum_primitive::Option::Some is core's Option
            let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            p.leading_colon = None;
            p.segments = rest.into_iter().collect();
            return;
        }
        if ["std", "core", "alloc"].contains(&first) {
            if KEEP_STD.contains(&s[1].as_str()) {
                // ::alloc::vec::Vec -> Vec (crate alloc is not linked by name)
                if first == "alloc" || first == "core" {
                    p.segments[0].ident = Ident::new("std", p.segments[0].ident.span());
                }
                p.leading_colon = None;
                return;
            }
            let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            let mut segs: Vec<PathSegment> = vec![parse_quote!(crate), parse_quote!(vshim)];
            segs.extend(rest);
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        } else if ["byteorder", "rand", "num", "enum_primitive"].contains(&first) {
            let rest: Vec<PathSegment> = p.segments.iter().cloned().collect();
            let mut segs: Vec<PathSegment> = vec![parse_quote!(crate), parse_quote!(vshim)];
            segs.extend(rest);
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // R7c on statement pairs
        let mut i = 0;
        while i < b.stmts.len() {
            let mut repl: Option<(usize, Stmt)> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Some(id), Some(init)) = (pat_ident(&l.pat), &l.init) {
                    if method(&init.expr, "map").is_some() && i + 1 < b.stmts.len() && uses_ident(&b.stmts[i + 1..], &id) == 1 {
                        if let Stmt::Expr(Expr::MethodCall(m), _) = &b.stmts[i + 1] {
                            if m.method == "extend" && m.args.len() == 1 && ts(&m.args[0]) == id.to_string() {
                                let r = (*m.receiver).clone();
                                let it = (*init.expr).clone();
                                if let Some(s) = self.map_extend(&r, &it) {
                                    repl = Some((2, s));
                                }
                            }
                        }
                    }
                }
            }
            if repl.is_none() {
                if let Stmt::Expr(Expr::MethodCall(m), _) = &b.stmts[i] {
                    if m.method == "extend" && m.args.len() == 1 && method(&m.args[0], "map").is_some() {
                        let r = (*m.receiver).clone();
                        let it = m.args[0].clone();
                        if let Some(s) = self.map_extend(&r, &it) {
                            repl = Some((1, s));
                        }
                    }
                }
            }
            if let Some((n, s)) = repl {
                b.stmts.splice(i..i + n, std::iter::once(s));
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(e, Some(_)) = s {
            if is_panic(e) {
                *s = parse_quote!(crate::vshim::vpanic::<()>(););
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // R3 format!
        if let Some((p, _)) = call_path(e) {
            if p.ends_with("__export::must_use") || p.ends_with("fmt::format") {
                *e = parse_quote!(crate::vshim::vfmt());
                return;
            }
        }
        // R4 panics
        if is_panic(e) {
            *e = parse_quote!(crate::vshim::vpanic());
            return;
        }
        // R4 assert_eq / assert_ne
        if let Expr::Match(m) = e {
            if m.arms.len() == 1 && ts(&m.arms[0].pat).replace(' ', "") == "(left_val,right_val)" {
                if let Expr::Tuple(t) = &*m.expr {
                    if t.elems.len() == 2 {
                        if let (Expr::Reference(a), Expr::Reference(b)) = (&t.elems[0], &t.elems[1]) {
                            let body = ts(&m.arms[0].body);
                            let ne = !body.replace(' ', "").contains("!(*left_val==*right_val)");
                            let (mut x, mut y) = ((*a.expr).clone(), (*b.expr).clone());
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut y);
                            *e = if ne {
                                parse_quote!(crate::vshim::vassert((#x) != (#y)))
                            } else {
                                parse_quote!(crate::vshim::vassert((#x) == (#y)))
                            };
                            return;
                        }
                    }
                }
            }
        }
        // R5 vec!
        if let Some((p, args)) = call_path(e) {
            if p.ends_with("box_assume_init_into_vec_unsafe") {
                if let Some(Expr::Call(c)) = args.first() {
                    if let Some(arr) = c.args.iter().nth(1) {
                        let mut arr = arr.clone();
                        self.visit_expr_mut(&mut arr);
                        *e = parse_quote!(crate::vshim::vec_from_array(#arr));
                        return;
                    }
                }
            }
            if p.ends_with("vec::from_elem") {
                let mut a: Vec<Expr> = args.iter().cloned().collect();
                for x in a.iter_mut() {
                    self.visit_expr_mut(x);
                }
                let (x, n) = (&a[0], &a[1]);
                *e = parse_quote!(crate::vshim::vec_from_elem(#x, #n));
                return;
            }
            if p.ends_with("alloc::vec::Vec::new") {
                *e = parse_quote!(Vec::new());
                return;
            }
        }
        // R6/R7 loops
        if let Expr::ForLoop(l) = e {
            let l2 = l.clone();
            if let Some(mut n) = self.chunk_loop(&l2).or_else(|| self.enum_loop(&l2)).or_else(|| self.zip_loop(&l2)) {
                visit_mut::visit_expr_mut(self, &mut n);
                *e = n;
                return;
            }
        }
        if let Some(mut n) = self.for_each(&e.clone()) {
            visit_mut::visit_expr_mut(self, &mut n);
            *e = n;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        // R10 T::from_xx_bytes(a) -> vshim::T_from_xx_bytes(a)
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                if p.path.segments.len() == 2 {
                    let t = p.path.segments[0].ident.to_string();
                    let f = p.path.segments[1].ident.to_string();
                    let f = if f == "from_ne_bytes" { "from_le_bytes".to_string() } else { f };
                    if ["u16", "u32", "u64"].contains(&t.as_str()) && ["from_le_bytes", "from_be_bytes"].contains(&f.as_str()) {
                        let id = Ident::new(&format!("{}_{}", t, f), proc_macro2::Span::call_site());
                        p.path = parse_quote!(crate::vshim::#id);
                    }
                }
            }
        }
        // R16 byte strings are arrays of their bytes
        if let Expr::Lit(l) = e {
            if let Lit::ByteStr(b) = &l.lit {
                let v = b.value();
                *e = parse_quote!((&[#(#v),*]));
            }
        }
        // R17 cmp::min has a contract under another name
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                let n = p.path.segments.len();
                if n >= 2 && c.args.len() == 2 && p.path.segments[n - 1].ident == "min" && p.path.segments[n - 2].ident == "cmp" {
                    p.path = parse_quote!(crate::vshim::vmin);
                }
            }
        }
        // R19 the default of a field, by its type
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                if c.args.is_empty() && p.qself.is_none() && ts(&p.path).replace(" ", "").trim_start_matches("::").replace("core::", "std::") == "std::default::Default::default" {
                    p.path = parse_quote!(crate::vshim::vdefault);
                }
            }
        }
        // R14 `E as Box<dyn T>` -> `{ let __b: Box<dyn T> = E; __b }` (the same unsizing coercion)
        if let Expr::Cast(c) = e {
            if let Type::Path(p) = &*c.ty {
                if last(&p.path) == "Box" && ts(&p.path).contains("dyn ") {
                    let (x, t) = (&c.expr, &c.ty);
                    *e = parse_quote!({ let __b: #t = #x; __b });
                }
            }
        }
        // R12 `unsafe { .. }` is an ordinary block: what it calls has a contract in the shim
        if let Expr::Unsafe(u) = e {
            let b = u.block.clone();
            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
        }
        // R9 method renames
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if let Some((_, nn)) = RENAME.iter().find(|(a, _)| *a == n) {
                m.method = Ident::new(nn, m.method.span());
            }
        }
    }
}

#[allow(dead_code)]
fn unused() {
    let _ = quote!();
}
