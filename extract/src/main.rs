//! husk-extract: mechanical extraction of the real code of /repo for the
//! deductive verifier.
//!
//! Input : the macro-expanded crate (`cargo +nightly rustc -- -Zunpretty=expanded`).
//! Output: JSON, one object per item, with the item's own tokens plus the
//!         neutral marker tokens the overlay uses to place contracts.
//!
//! Every rewrite below is a fixed syntactic rule; nothing is keyed on a
//! particular function of the repository.  See DESIGN.md, "What the
//! extraction changes".
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod json;
mod inline;
mod rules;
use json::J;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&args[1]).expect("read expanded source");
    // names of functions under contract: everything else that is local and
    // non-recursive is inlined at its call sites (rule T8)
    let known: BTreeSet<String> = if args.len() > 2 {
        std::fs::read_to_string(&args[2]).expect("read contract list").lines().map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()
    } else {
        BTreeSet::new()
    };
    let mut file = syn::parse_file(&src).expect("parse expanded source");
    let mut log: Vec<String> = vec![];
    rules::hoist_nested(&mut file.items, "", &known, &mut log);
    rules::apply(&mut file, &mut log);
    if args.len() > 2 {
        inline::apply(&mut file, &known, &mut log);
    }
    inline::Loops::new(&mut log).visit_file_mut(&mut file);
    let consts = inline::consts_of(&file);
    if args.len() > 3 {
        // names of locals and parameters the contracts are written with
        let base: BTreeMap<String, Vec<String>> = std::fs::read_to_string(&args[3]).expect("read names").lines().filter_map(|l| l.split_once('\t').map(|(a, b)| (a.to_string(), b.split_whitespace().map(|x| x.to_string()).collect()))).collect();
        inline::names(&mut file, &base, &mut log);
    }
    CONSTS.with(|c| *c.borrow_mut() = consts);
    let mut out: Vec<J> = vec![];
    walk(&file.items, "", &mut out);
    let j = J::obj(vec![
        ("items", J::Arr(out)),
        ("log", J::Arr(log.into_iter().map(J::Str).collect())),
    ]);
    println!("{}", j.dump());
}

thread_local!(static CONSTS: std::cell::RefCell<BTreeSet<String>> = Default::default());

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn attr_names(attrs: &[Attribute]) -> Vec<String> {
    attrs.iter().map(|a| ts(&a.path())).collect()
}

fn derived(attrs: &[Attribute]) -> bool {
    attr_names(attrs).iter().any(|n| n == "automatically_derived")
}

fn join(m: &str, n: &str) -> String {
    if m.is_empty() { n.to_string() } else { format!("{}::{}", m, n) }
}

fn flatten_use(t: &UseTree, pre: Vec<String>, out: &mut Vec<J>) {
    match t {
        UseTree::Path(p) => {
            let mut q = pre;
            q.push(p.ident.to_string());
            flatten_use(&p.tree, q, out)
        }
        UseTree::Name(n) => {
            let mut q = pre;
            if n.ident == "self" {
                let name = q.last().cloned().unwrap_or_default();
                out.push(J::obj(vec![("path", J::strs(&q)), ("name", J::s(&name))]));
            } else {
                q.push(n.ident.to_string());
                out.push(J::obj(vec![("path", J::strs(&q)), ("name", J::s(&n.ident.to_string()))]));
            }
        }
        UseTree::Rename(n) => {
            let mut q = pre;
            if n.ident != "self" {
                q.push(n.ident.to_string());
            }
            out.push(J::obj(vec![("path", J::strs(&q)), ("name", J::s(&n.rename.to_string()))]));
        }
        UseTree::Glob(_) => {
            out.push(J::obj(vec![("path", J::strs(&pre)), ("name", J::s("*"))]));
        }
        UseTree::Group(g) => {
            for i in &g.items {
                flatten_use(i, pre.clone(), out);
            }
        }
    }
}

fn walk(items: &[Item], m: &str, out: &mut Vec<J>) {
    for it in items {
        match it {
            Item::Mod(md) => {
                let p = join(m, &md.ident.to_string());
                out.push(J::obj(vec![("kind", J::s("mod")), ("module", J::s(m)), ("name", J::s(&md.ident.to_string())), ("path", J::s(&p))]));
                if let Some((_, its)) = &md.content {
                    walk(its, &p, out);
                }
            }
            Item::Use(u) => {
                let mut l = vec![];
                flatten_use(&u.tree, vec![], &mut l);
                let is_pub = matches!(u.vis, Visibility::Public(_));
                out.push(J::obj(vec![("kind", J::s("use")), ("module", J::s(m)), ("uses", J::Arr(l)), ("pub", J::Bool(is_pub)), ("leading", J::Bool(u.leading_colon.is_some()))]));
            }
            Item::Const(c) => out.push(J::obj(vec![
                ("kind", J::s("const")), ("module", J::s(m)), ("name", J::s(&c.ident.to_string())),
                ("ty", J::s(&ts(&c.ty))), ("expr", J::s(&ts(&c.expr))),
            ])),
            Item::Static(c) => out.push(J::obj(vec![
                ("kind", J::s("static")), ("module", J::s(m)), ("name", J::s(&c.ident.to_string())),
                ("ty", J::s(&ts(&c.ty))), ("expr", J::s(&ts(&c.expr))),
                ("mutable", J::Bool(!matches!(c.mutability, StaticMutability::None))),
            ])),
            Item::Type(t) => out.push(J::obj(vec![
                ("kind", J::s("type")), ("module", J::s(m)), ("name", J::s(&t.ident.to_string())),
                ("generics", J::s(&ts(&t.generics))), ("ty", J::s(&ts(&t.ty))),
            ])),
            Item::Struct(s) => {
                let mut s2 = s.clone();
                s2.attrs.clear();
                s2.vis = parse_quote!(pub);
                for f in s2.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                out.push(J::obj(vec![("kind", J::s("struct")), ("module", J::s(m)), ("name", J::s(&s.ident.to_string())), ("text", J::s(&ts(&s2)))]));
            }
            Item::Enum(e) => {
                let mut e2 = e.clone();
                e2.attrs.clear();
                e2.vis = parse_quote!(pub);
                let unit = e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
                for v in e2.variants.iter_mut() {
                    v.attrs.clear();
                }
                out.push(J::obj(vec![("kind", J::s("enum")), ("module", J::s(m)), ("name", J::s(&e.ident.to_string())), ("text", J::s(&ts(&e2))), ("unit", J::Bool(unit))]));
            }
            Item::Fn(f) => {
                out.push(fn_json(m, "", &f.sig, Some(&f.block), "fn"));
            }
            Item::Trait(t) => {
                let mut fns = vec![];
                for i in &t.items {
                    if let TraitItem::Fn(f) = i {
                        fns.push(fn_json(m, &t.ident.to_string(), &f.sig, f.default.as_ref(), "traitfn"));
                    }
                }
                let sup = ts(&t.supertraits);
                out.push(J::obj(vec![
                    ("kind", J::s("trait")), ("module", J::s(m)), ("name", J::s(&t.ident.to_string())),
                    ("generics", J::s(&ts(&t.generics))), ("supertraits", J::s(&sup)), ("fns", J::Arr(fns)),
                ]));
            }
            Item::Impl(i) => {
                let self_ty = ts(&*i.self_ty);
                let tr = i.trait_.as_ref().map(|(_, p, _)| ts(p)).unwrap_or_default();
                if derived(&i.attrs) && tr != "Default" {
                    out.push(J::obj(vec![("kind", J::s("derive")), ("module", J::s(m)), ("self_ty", J::s(&self_ty)), ("trait", J::s(&tr))]));
                    continue;
                }
                let mut fns = vec![];
                let mut types = vec![];
                let key = if tr.is_empty() { self_ty.clone() } else { format!("<{} as {}>", self_ty, tr) };
                for x in &i.items {
                    match x {
                        ImplItem::Fn(f) => fns.push(fn_json(m, &key, &f.sig, Some(&f.block), "fn")),
                        ImplItem::Type(t) => types.push(J::obj(vec![("name", J::s(&t.ident.to_string())), ("ty", J::s(&ts(&t.ty)))])),
                        ImplItem::Const(c) => types.push(J::obj(vec![("const", J::s(&c.ident.to_string())), ("ty", J::s(&ts(&c.ty))), ("expr", J::s(&ts(&c.expr)))])),
                        _ => {}
                    }
                }
                let (ig, _, wc) = i.generics.split_for_impl();
                out.push(J::obj(vec![
                    ("kind", J::s("impl")), ("module", J::s(m)), ("self_ty", J::s(&self_ty)), ("trait", J::s(&tr)),
                    ("generics", J::s(&ts(&ig))), ("where", J::s(&ts(&wc))), ("types", J::Arr(types)), ("fns", J::Arr(fns)), ("key", J::s(&key)),
                ]));
            }
            Item::ExternCrate(_) | Item::Macro(_) => {}
            other => out.push(J::obj(vec![("kind", J::s("other")), ("module", J::s(m)), ("text", J::s(&ts(other)))])),
        }
    }
}

// ---------------------------------------------------------------------------
// functions: signature pieces and a marked body

struct Marker {
    n_stmt: usize,
    stmts: Vec<J>,
    n_loop: usize,
    loops: Vec<J>,
}

fn mk(name: &str) -> Stmt {
    let id = Ident::new(name, Span::call_site());
    Stmt::Expr(Expr::Verbatim(quote!(#id ;)), None)
}

impl Marker {
    fn block(&mut self, b: &mut Block, depth: usize) {
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        for (i, mut s) in old.into_iter().enumerate() {
            let id = self.n_stmt;
            self.n_stmt += 1;
            let text = ts(&s);
            let tail = i + 1 == n && matches!(&s, Stmt::Expr(_, None));
            let bind = match &s {
                Stmt::Local(l) => ts(&l.pat),
                _ => String::new(),
            };
            self.stmts.push(J::obj(vec![
                ("id", J::Num(id as i64)), ("text", J::s(&text)), ("depth", J::Num(depth as i64)),
                ("tail", J::Bool(tail)), ("let", J::s(&bind)),
            ]));
            self.visit_stmt_mut(&mut s);
            b.stmts.push(mk(&format!("__S{}", id)));
            if tail && depth == 0 {
                if let Stmt::Expr(e, None) = &s {
                    let e2 = e.clone();
                    s = Stmt::Expr(Expr::Verbatim(quote!(__TB #e2 __TE)), None);
                }
                b.stmts.push(s);
            } else {
                b.stmts.push(s);
                if !tail {
                    b.stmts.push(mk(&format!("__A{}", id)));
                }
            }
        }
    }
    fn loop_(&mut self, kind: &str, head: String) -> usize {
        let id = self.n_loop;
        self.n_loop += 1;
        self.loops.push(J::obj(vec![("id", J::Num(id as i64)), ("kind", J::s(kind)), ("head", J::s(&head))]));
        id
    }
}

/// a loop body has type (): its last expression may as well end in `;`
fn semi(b: &mut Block) {
    if let Some(Stmt::Expr(e, t @ None)) = b.stmts.last_mut() {
        if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            *t = Some(Default::default());
        }
    }
}

impl VisitMut for Marker {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block(b, 1);
    }
    fn visit_item_mut(&mut self, _i: &mut Item) {}
    fn visit_expr_closure_mut(&mut self, _c: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(l) => {
                let id = self.loop_("for", format!("{} in {}", ts(&l.pat), ts(&l.expr)));
                visit_mut::visit_expr_mut(self, &mut l.expr);
                semi(&mut l.body);
                self.block(&mut l.body, 1);
                let ie = Ident::new(&format!("__LF{}", id), Span::call_site());
                let il = Ident::new(&format!("__LI{}", id), Span::call_site());
                let ls = mk(&format!("__LS{}", id));
                let le = mk(&format!("__LE{}", id));
                l.body.stmts.insert(0, ls);
                l.body.stmts.push(le);
                let ex = &l.expr;
                let lab = &l.label;
                let pat = &l.pat;
                let body = &l.body;
                *e = Expr::Verbatim(quote!(#lab for #pat in #ie #ex #il #body));
            }
            Expr::While(l) => {
                let id = self.loop_("while", ts(&l.cond));
                visit_mut::visit_expr_mut(self, &mut l.cond);
                semi(&mut l.body);
                self.block(&mut l.body, 1);
                let il = Ident::new(&format!("__LI{}", id), Span::call_site());
                let ls = mk(&format!("__LS{}", id));
                let le = mk(&format!("__LE{}", id));
                l.body.stmts.insert(0, ls);
                l.body.stmts.push(le);
                let ex = &l.cond;
                let lab = &l.label;
                let body = &l.body;
                *e = Expr::Verbatim(quote!(#lab while #ex #il #body));
            }
            Expr::Loop(l) => {
                let id = self.loop_("loop", String::new());
                semi(&mut l.body);
                self.block(&mut l.body, 1);
                let il = Ident::new(&format!("__LI{}", id), Span::call_site());
                let ls = mk(&format!("__LS{}", id));
                let le = mk(&format!("__LE{}", id));
                l.body.stmts.insert(0, ls);
                l.body.stmts.push(le);
                let lab = &l.label;
                let body = &l.body;
                *e = Expr::Verbatim(quote!(#lab loop #il #body));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn fn_json(m: &str, owner: &str, sig: &Signature, body: Option<&Block>, kind: &str) -> J {
    let name = sig.ident.to_string();
    let path = if owner.is_empty() { join(m, &name) } else { join(m, &format!("{}::{}", owner, name)) };
    let mut params = vec![];
    for p in sig.inputs.iter() {
        match p {
            FnArg::Receiver(r) => params.push(J::obj(vec![("self", J::s(&ts(r)))])),
            FnArg::Typed(t) => params.push(J::obj(vec![("pat", J::s(&ts(&t.pat))), ("ty", J::s(&ts(&t.ty)))])),
        }
    }
    let ret = match &sig.output {
        ReturnType::Default => "()".to_string(),
        ReturnType::Type(_, t) => ts(t),
    };
    let (ig, _, wc) = sig.generics.split_for_impl();
    let mut fields = vec![
        ("kind", J::s(kind)), ("module", J::s(m)), ("name", J::s(&name)), ("path", J::s(&path)), ("owner", J::s(owner)),
        ("generics", J::s(&ts(&ig))), ("where", J::s(&ts(&wc))), ("params", J::Arr(params)), ("ret", J::s(&ret)),
    ];
    if let Some(b) = body {
        let raw = ts(b);
        fields.push(("binders", J::strs(&CONSTS.with(|c| inline::binders(sig, b, &c.borrow())))));
        let mut b2 = b.clone();
        let mut mkr = Marker { n_stmt: 0, stmts: vec![], n_loop: 0, loops: vec![] };
        mkr.block(&mut b2, 0);
        b2.stmts.push_end();
        fields.push(("body", J::s(&ts(&b2))));
        fields.push(("raw", J::s(&raw)));
        fields.push(("stmts", J::Arr(mkr.stmts)));
        fields.push(("loops", J::Arr(mkr.loops)));
    }
    J::obj(fields)
}

trait PushEnd {
    fn push_end(&mut self);
}
impl PushEnd for Vec<Stmt> {
    fn push_end(&mut self) {}
}

#[allow(dead_code)]
fn unused(_: BTreeMap<String, TokenTree>, _: TokenStream) {}
