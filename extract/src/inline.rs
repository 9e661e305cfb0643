//! T8: a local function or inherent method without contract is put in place of its calls, so that the contracts of its
//! callers (which a caller's proof would otherwise have nothing to say about it from) decide about its code as well.
//! On a tree in which every function has its contract this changes nothing.
//!
//! The rule is the usual one: locals of the callee get names of their own, a parameter is replaced by its argument where
//! the argument is a variable, a literal or a borrowed place, and becomes a `let` otherwise; the callee's statements come before the statement
//! with the call, or form a block expression in its place.  Whatever does not fit (recursion, early returns that are not
//! tail-like, macros, labelled loops) is left alone.
use crate::rules::{last, ts};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Callee {
    module: String,
    owner: String, // tokens of the self type, empty for a free function
    generics: Vec<String>,
    sig: Signature,
    block: Block,
    path: String,
}

fn jn(m: &str, n: &str) -> String {
    if m.is_empty() { n.to_string() } else { format!("{}::{}", m, n) }
}

fn gnames(gs: &[&Generics]) -> Vec<String> {
    gs.iter().flat_map(|g| g.params.iter()).map(|p| match p {
        GenericParam::Type(t) => t.ident.to_string(),
        GenericParam::Lifetime(l) => l.lifetime.ident.to_string(),
        GenericParam::Const(c) => c.ident.to_string(),
    }).collect()
}

/// all functions: candidates, and how often each name is defined
fn collect(items: &[Item], m: &str, known: &BTreeSet<String>, cands: &mut Vec<Callee>, names: &mut HashMap<String, usize>) {
    for it in items {
        match it {
            Item::Mod(md) => {
                if let Some((_, its)) = &md.content {
                    collect(its, &jn(m, &md.ident.to_string()), known, cands, names);
                }
            }
            Item::Fn(f) => {
                let n = f.sig.ident.to_string();
                *names.entry(n.clone()).or_insert(0) += 1;
                let path = jn(m, &n);
                if !known.contains(&path) {
                    cands.push(Callee { module: m.into(), owner: String::new(), generics: gnames(&[&f.sig.generics]), sig: f.sig.clone(), block: (*f.block).clone(), path });
                }
            }
            Item::Trait(t) => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        *names.entry(f.sig.ident.to_string()).or_insert(0) += 1;
                    }
                }
            }
            Item::Impl(i) => {
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        let n = f.sig.ident.to_string();
                        *names.entry(n.clone()).or_insert(0) += 1;
                        if i.trait_.is_none() {
                            let owner = ts(&*i.self_ty);
                            let path = jn(m, &format!("{}::{}", owner, n));
                            if !known.contains(&path) {
                                cands.push(Callee { module: m.into(), owner, generics: gnames(&[&i.generics, &f.sig.generics]), sig: f.sig.clone(), block: f.block.clone(), path });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn idents_of(t: TokenStream, out: &mut Vec<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => out.push(i.to_string()),
            TokenTree::Group(g) => idents_of(g.stream(), out),
            _ => {}
        }
    }
}
/// variables used (not methods, fields or bindings)
fn vars_of(b: &[Stmt], tail: Option<&Expr>, out: &mut Vec<String>) {
    struct V<'b>(&'b mut Vec<String>);
    impl<'b, 'a> Visit<'a> for V<'b> {
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.push(i.to_string());
            }
        }
    }
    let mut v = V(out);
    for s in b {
        v.visit_stmt(s);
    }
    if let Some(t) = tail {
        v.visit_expr(t);
    }
}
fn calls_itself(b: &Block, name: &Ident) -> bool {
    struct V<'b>(&'b Ident, bool);
    impl<'b, 'a> Visit<'a> for V<'b> {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if p.path.segments.last().map_or(false, |s| s.ident == *self.0) {
                    self.1 = true;
                }
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if m.method == *self.0 {
                self.1 = true;
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V(name, false);
    v.visit_block(b);
    v.1
}
fn mentions<T: ToTokens>(t: &T, name: &str) -> bool {
    let mut v = vec![];
    idents_of(t.to_token_stream(), &mut v);
    v.iter().any(|x| x == name)
}

/// things the rule cannot move
fn movable(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Macro(_) | Expr::Verbatim(_) | Expr::Async(_) | Expr::Await(_) | Expr::Yield(_) | Expr::TryBlock(_) | Expr::Const(_) => self.0 = false,
                Expr::Block(b) if b.label.is_some() => self.0 = false,
                Expr::Break(b) if b.label.is_some() => self.0 = false,
                Expr::Continue(b) if b.label.is_some() => self.0 = false,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
        fn visit_stmt(&mut self, s: &'a Stmt) {
            if matches!(s, Stmt::Item(_) | Stmt::Macro(_)) {
                self.0 = false;
            }
            visit::visit_stmt(self, s);
        }
    }
    let mut v = V(true);
    v.visit_block(b);
    v.0
}

/// (return expressions, has `?`) outside closures
fn exits(b: &[Stmt]) -> (Vec<Option<Expr>>, bool) {
    struct V(Vec<Option<Expr>>, bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            self.0.push(r.expr.as_ref().map(|e| (**e).clone()));
            visit::visit_expr_return(self, r);
        }
        fn visit_expr_try(&mut self, t: &'a ExprTry) {
            self.1 = true;
            visit::visit_expr_try(self, t);
        }
        fn visit_expr_closure(&mut self, _c: &'a ExprClosure) {}
    }
    let mut v = V(vec![], false);
    for s in b {
        v.visit_stmt(s);
    }
    (v.0, v.1)
}

// ---------------------------------------------------------------- names of their own
pub struct Alpha<'a> {
    scopes: Vec<HashMap<String, String>>,
    n: &'a mut usize,
    orig: BTreeMap<String, String>, // new -> original
    order: Vec<String>,             // new names in the order of their bindings
    consts: &'a BTreeSet<String>,   // lower-case names of variants and constants: never a binding
    plain: bool,                    // names that do not contain the original one
    bad: bool,
}
impl<'a> Alpha<'a> {
    fn declare(&mut self, p: &mut Pat) {
        struct D<'b, 'a>(&'b mut Alpha<'a>);
        impl<'b, 'a> VisitMut for D<'b, 'a> {
            fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
                let o = i.ident.to_string();
                let c = o.chars().next().unwrap();
                if self.0.consts.contains(&o) {
                    self.0.bad = true;
                }
                if (c.is_lowercase() || c == '_') && o != "self" {
                    *self.0.n += 1;
                    let nn = if self.0.plain { format!("__v{}", self.0.n) } else { format!("{}__h{}", o, self.0.n) };
                    self.0.order.push(nn.clone());
                    self.0.scopes.last_mut().unwrap().insert(o.clone(), nn.clone());
                    self.0.orig.insert(nn.clone(), o);
                    i.ident = Ident::new(&nn, i.ident.span());
                }
                if let Some((_, s)) = &mut i.subpat {
                    self.visit_pat_mut(s);
                }
            }
            fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
                if f.colon_token.is_none() {
                    f.colon_token = Some(Default::default());
                }
                visit_mut::visit_field_pat_mut(self, f);
            }
            fn visit_expr_mut(&mut self, _e: &mut Expr) {}
        }
        D(self).visit_pat_mut(p);
    }
    fn push(&mut self) {
        self.scopes.push(HashMap::new());
    }
    fn pop(&mut self) {
        self.scopes.pop();
    }
}
impl<'a> VisitMut for Alpha<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.push();
        for s in b.stmts.iter_mut() {
            self.visit_stmt_mut(s);
        }
        self.pop();
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = &mut l.init {
            self.visit_expr_mut(&mut i.expr);
            if let Some((_, d)) = &mut i.diverge {
                self.visit_expr_mut(d);
            }
        }
        self.declare(&mut l.pat);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.push();
        self.declare(&mut a.pat);
        if let Some((_, g)) = &mut a.guard {
            self.visit_expr_mut(g);
        }
        self.visit_expr_mut(&mut a.body);
        self.pop();
    }
    fn visit_expr_let_mut(&mut self, l: &mut ExprLet) {
        self.visit_expr_mut(&mut l.expr);
        self.declare(&mut l.pat);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        self.push();
        self.visit_expr_mut(&mut i.cond);
        self.visit_block_mut(&mut i.then_branch);
        self.pop();
        if let Some((_, e)) = &mut i.else_branch {
            self.visit_expr_mut(e);
        }
    }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        self.push();
        self.visit_expr_mut(&mut w.cond);
        self.visit_block_mut(&mut w.body);
        self.pop();
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        self.push();
        self.declare(&mut f.pat);
        self.visit_block_mut(&mut f.body);
        self.pop();
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.push();
        for p in c.inputs.iter_mut() {
            self.declare(p);
        }
        self.visit_expr_mut(&mut c.body);
        self.pop();
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.leading_colon.is_none() && p.path.segments.len() == 1 {
            let n = p.path.segments[0].ident.to_string();
            for s in self.scopes.iter().rev() {
                if let Some(nn) = s.get(&n) {
                    p.path.segments[0].ident = Ident::new(nn, p.path.segments[0].ident.span());
                    return;
                }
            }
        }
    }
}

struct Rename<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for Rename<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        visit_mut::visit_field_value_mut(self, f);
    }
}

// ---------------------------------------------------------------- arguments
#[derive(Clone)]
enum Arg {
    Direct(Expr),
    Place(Expr, bool), // borrowed place, mutable
}
struct Subst<'a>(&'a BTreeMap<String, Arg>);
impl<'a> Subst<'a> {
    fn get(&self, e: &Expr) -> Option<&Arg> {
        match e {
            Expr::Path(p) if p.qself.is_none() => p.path.get_ident().and_then(|i| self.0.get(&i.to_string())),
            Expr::Paren(p) => self.get(&p.expr),
            _ => None,
        }
    }
    fn place(&self, e: &mut Expr) -> bool {
        if let Some(Arg::Place(pl, _)) = self.get(e) {
            *e = pl.clone();
            return true;
        }
        false
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(Arg::Place(pl, _)) = self.get(&u.expr) {
                    *e = pl.clone();
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if self.place(&mut m.receiver) {
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Field(f) => {
                if self.place(&mut f.base) {
                    return;
                }
            }
            Expr::Index(i) => {
                if self.place(&mut i.expr) {
                    self.visit_expr_mut(&mut i.index);
                    return;
                }
            }
            _ => {}
        }
        if matches!(e, Expr::Path(_)) {
            match self.get(e) {
                Some(Arg::Direct(x)) => *e = x.clone(),
                Some(Arg::Place(p, true)) if !matches!(e, Expr::Path(_)) || ts(p) != "self" => *e = parse_quote!((&mut #p)),
                Some(Arg::Place(p, false)) if ts(p) != "self" => *e = parse_quote!((&#p)),
                Some(Arg::Place(p, _)) => *e = p.clone(),
                None => {}
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

/// a chain of fields and literal or variable indices on a variable
fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}
fn is_var(e: &Expr) -> bool {
    matches!(strip(e), Expr::Path(p) if p.path.get_ident().map_or(false, |i| i.to_string().chars().next().unwrap().is_lowercase() || i.to_string().starts_with('_')))
}

fn assigned(b: &Block, name: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_expr(&mut self, e: &'b Expr) {
            let hit = |x: &Expr, n: &str| {
                let mut y = x;
                loop {
                    match y {
                        Expr::Paren(p) => y = &p.expr,
                        Expr::Field(f) => y = &f.base,
                        Expr::Index(i) => y = &i.expr,
                        Expr::Path(p) => return p.path.is_ident(n),
                        _ => return false,
                    }
                }
            };
            match e {
                Expr::Assign(a) if hit(&a.left, self.0) => self.1 = true,
                Expr::Binary(b) if hit(&b.left, self.0) && ts(&b.op).ends_with('=') && !["==", "<=", ">=", "!="].contains(&ts(&b.op).as_str()) => self.1 = true,
                Expr::Reference(r) if r.mutability.is_some() && hit(&r.expr, self.0) => self.1 = true,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut v = V(name, false);
    v.visit_block(b);
    v.1
}

// ---------------------------------------------------------------- shapes of bodies
/// `if c { ..; return e; } rest`  ->  `if c { ..; e } else { rest }`
fn nest(stmts: Vec<Stmt>) -> Vec<Stmt> {
    for i in 0..stmts.len() {
        if let Stmt::Expr(Expr::If(f), _) = &stmts[i] {
            if f.else_branch.is_none() && i + 1 < stmts.len() {
                if let Some(Stmt::Expr(Expr::Return(r), _)) = f.then_branch.stmts.last() {
                    let mut f2 = f.clone();
                    let e = r.expr.clone();
                    f2.then_branch.stmts.pop();
                    if let Some(e) = e {
                        f2.then_branch.stmts.push(Stmt::Expr(*e, None));
                    }
                    f2.then_branch.stmts = nest(f2.then_branch.stmts);
                    let rest = nest(stmts[i + 1..].to_vec());
                    f2.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: rest } }))));
                    let mut out = stmts[..i].to_vec();
                    out.push(Stmt::Expr(Expr::If(f2), None));
                    return out;
                }
            }
        }
    }
    stmts
}

fn is_err(e: &Expr) -> bool {
    match strip(e) {
        Expr::Call(c) => {
            let p = ts(&c.func).replace(' ', "");
            p == "Err" || p.ends_with("::Err") || p.ends_with("TlsError::new")
        }
        _ => false,
    }
}

/// the value of `E?` for a tail expression E
fn unwrap_tail(e: Expr) -> Expr {
    if is_err(&e) {
        return parse_quote!(return #e);
    }
    match e {
        Expr::Paren(p) => unwrap_tail(*p.expr),
        Expr::Return(_) => e,
        Expr::Call(ref c) if ["Ok", "Result::Ok"].contains(&ts(&c.func).replace(' ', "").as_str()) && c.args.len() == 1 => c.args[0].clone(),
        Expr::If(mut f) if f.else_branch.is_some() => {
            unwrap_block(&mut f.then_branch);
            let (t, x) = f.else_branch.take().unwrap();
            f.else_branch = Some((t, Box::new(unwrap_tail(*x))));
            Expr::If(f)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                let b = (*a.body).clone();
                a.body = Box::new(unwrap_tail(b));
                if a.comma.is_none() {
                    a.comma = Some(Default::default());
                }
            }
            Expr::Match(m)
        }
        Expr::Block(mut b) => {
            unwrap_block(&mut b.block);
            Expr::Block(b)
        }
        e => parse_quote!(#e?),
    }
}
fn unwrap_block(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.pop_if_tail() {
        b.stmts.push(Stmt::Expr(unwrap_tail(e), None));
    }
}
trait PopTail {
    fn pop_if_tail(&mut self) -> Option<Stmt>;
}
impl PopTail for Vec<Stmt> {
    fn pop_if_tail(&mut self) -> Option<Stmt> {
        if matches!(self.last(), Some(Stmt::Expr(_, None))) { self.pop() } else { None }
    }
}

fn error_of(o: &ReturnType) -> Option<String> {
    let t = match o {
        ReturnType::Type(_, t) => t,
        _ => return None,
    };
    if let Type::Path(p) = &**t {
        let s = p.path.segments.last()?;
        let n = s.ident.to_string();
        let args: Vec<String> = match &s.arguments {
            PathArguments::AngleBracketed(a) => a.args.iter().map(ts).collect(),
            _ => vec![],
        };
        return match (n.as_str(), args.len()) {
            ("TlsResult", 1) => Some("TlsError".into()),
            ("Result", 2) => Some(args[1].rsplit(' ').next().unwrap_or("").to_string()),
            ("Result", 1) => Some("io".into()),
            _ => None,
        };
    }
    None
}

fn is_unit(o: &ReturnType) -> bool {
    match o {
        ReturnType::Default => true,
        ReturnType::Type(_, t) => ts(t) == "()",
    }
}

/// the expression matching `f` that is evaluated before everything else in `e`
fn first<'e>(e: &'e mut Expr, f: &dyn Fn(&Expr) -> bool) -> Option<&'e mut Expr> {
    if f(e) {
        return Some(e);
    }
    match e {
        Expr::Paren(x) => first(&mut x.expr, f),
        Expr::If(x) => first(&mut x.cond, f),
        Expr::Match(x) => first(&mut x.expr, f),
        Expr::Let(x) => first(&mut x.expr, f),
        Expr::Return(x) => x.expr.as_mut().and_then(|y| first(y, f)),
        Expr::Try(x) => first(&mut x.expr, f),
        Expr::Unary(x) if !matches!(x.op, UnOp::Deref(_)) => first(&mut x.expr, f),
        Expr::Cast(x) => first(&mut x.expr, f),
        Expr::Field(x) => first(&mut x.base, f),
        Expr::Binary(x) if !ts(&x.op).ends_with('=') || ["==", "<=", ">=", "!="].contains(&ts(&x.op).as_str()) => first(&mut x.left, f),
        Expr::Call(x) if matches!(&*x.func, Expr::Path(_)) => x.args.first_mut().and_then(|a| first(a, f)),
        Expr::MethodCall(x) => {
            if is_place(&x.receiver) {
                x.args.first_mut().and_then(|a| first(a, f))
            } else {
                first(&mut x.receiver, f)
            }
        }
        Expr::Tuple(x) => x.elems.first_mut().and_then(|a| first(a, f)),
        Expr::Assign(x) if is_place(&x.left) => first(&mut x.right, f),
        _ => None,
    }
}

// ---------------------------------------------------------------- the rule
struct Ctx<'a> {
    cands: &'a [Callee],
    names: &'a HashMap<String, usize>,
    consts: &'a BTreeSet<String>,
    module: String,
    owner: String,
    out: ReturnType,
    path: String,
    n: usize,
    done: usize,
    log: &'a mut Vec<String>,
}

const STD: &[&str] = &["len", "push", "get", "next", "iter", "read", "write", "flush", "clone", "is_empty", "extend", "insert", "remove", "take", "into", "from", "new", "map", "unwrap", "min", "max"];

struct Inlined {
    stmts: Vec<Stmt>,
    tail: Option<Expr>,
    orig: BTreeMap<String, String>,
    path: String,
    unit: bool,
}

impl<'a> Ctx<'a> {
    fn find(&self, e: &Expr) -> Option<(Callee, Vec<Expr>, bool)> {
        match strip(e) {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => &p.path,
                    _ => return None,
                };
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.last()?.clone();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let k = segs.len();
                for d in self.cands {
                    if d.sig.ident != n.as_str() || d.path == self.path || d.sig.inputs.len() != args.len() {
                        continue;
                    }
                    if d.owner.is_empty() {
                        let qual = k == 1 || segs[k - 2] == "self" || segs[k - 2] == "super" || segs[k - 2] == "crate" || d.module.ends_with(&segs[k - 2]);
                        if qual && (d.module == self.module || self.names.get(&n) == Some(&1)) {
                            return Some((d.clone(), args, false));
                        }
                    } else if k == 2 {
                        let o = &segs[0];
                        let first = d.owner.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("");
                        if (o == "Self" && d.owner == self.owner && d.module == self.module) || o == first {
                            let m = matches!(d.sig.inputs.first(), Some(FnArg::Receiver(_)));
                            return Some((d.clone(), args, m));
                        }
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                for d in self.cands {
                    if d.owner.is_empty() || d.sig.ident != n.as_str() || d.path == self.path || !matches!(d.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                        continue;
                    }
                    let me = ts(&m.receiver) == "self" && d.owner == self.owner && d.module == self.module;
                    let unique = self.names.get(&n) == Some(&1) && !STD.contains(&n.as_str());
                    if (me || unique) && d.sig.inputs.len() == m.args.len() + 1 {
                        let mut args = vec![(*m.receiver).clone()];
                        args.extend(m.args.iter().cloned());
                        return Some((d.clone(), args, true));
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// the callee's statements and value, with arguments in place.  `tried`: the call is under `?`; `ret`: it is the value
    /// the caller returns
    fn inst(&mut self, d: &Callee, args: &[Expr], method: bool, tried: bool, ret: bool) -> Option<Inlined> {
        if !movable(&d.block) || calls_itself(&d.block, &d.sig.ident) {
            return None;
        }
        if d.owner != self.owner || d.module != self.module {
            if d.generics.iter().any(|g| mentions(&d.block, g)) || mentions(&d.block, "Self") {
                return None;
            }
        }
        if d.module != self.module {
            // names of the callee's module mean something else here
            let mut free = false;
            struct P<'b>(&'b mut bool);
            impl<'b, 'c> Visit<'c> for P<'b> {
                fn visit_path(&mut self, p: &'c Path) {
                    if let Some(s) = p.segments.first() {
                        let n = s.ident.to_string();
                        let up = n.chars().next().map_or(false, |c| c.is_uppercase());
                        if (p.segments.len() > 1 && !["crate", "std"].contains(&n.as_str())) || (up && !["Some", "None", "Ok", "Err", "Vec"].contains(&n.as_str())) {
                            *self.0 = true;
                        }
                    }
                    visit::visit_path(self, p);
                }
                fn visit_expr_call(&mut self, c: &'c ExprCall) {
                    if let Expr::Path(p) = &*c.func {
                        if p.path.segments.len() == 1 && !["Some", "Ok", "Err"].contains(&ts(&p.path).as_str()) {
                            *self.0 = true;
                        }
                    }
                    visit::visit_expr_call(self, c);
                }
            }
            P(&mut free).visit_block(&d.block);
            if free {
                return None;
            }
        }
        let mut block = d.block.clone();
        // exits
        let (rets, q) = exits(&block.stmts);
        if !rets.is_empty() || q {
            let same = ts(&d.sig.output) == ts(&self.out);
            if ret && same {
                // as they are
            } else if tried && error_of(&d.sig.output).is_some() && error_of(&d.sig.output) == error_of(&self.out) {
                if rets.iter().any(|r| !r.as_ref().map_or(false, is_err)) {
                    block.stmts = nest(block.stmts);
                }
                let (r2, _) = exits(&block.stmts);
                if r2.iter().any(|r| !r.as_ref().map_or(false, is_err)) {
                    return None;
                }
            } else {
                block.stmts = nest(block.stmts);
                let (r2, q2) = exits(&block.stmts);
                if !r2.is_empty() || q2 {
                    return None;
                }
            }
        }
        if tried {
            error_of(&d.sig.output)?;
            if error_of(&d.sig.output) != error_of(&self.out) {
                return None;
            }
            unwrap_block(&mut block);
        }
        // names
        let mut al = Alpha { scopes: vec![HashMap::new()], n: &mut self.n, orig: BTreeMap::new(), order: vec![], consts: self.consts, plain: false, bad: false };
        let mut pars: Vec<(Option<String>, Type, bool)> = vec![];
        for a in d.sig.inputs.iter() {
            match a {
                FnArg::Receiver(r) => pars.push((None, (*r.ty).clone(), r.mutability.is_some() && r.reference.is_none())),
                FnArg::Typed(t) => {
                    let mut p = (*t.pat).clone();
                    let m = matches!(&p, Pat::Ident(i) if i.mutability.is_some());
                    match &p {
                        Pat::Ident(_) => {}
                        Pat::Wild(_) => {
                            pars.push((Some(String::new()), (*t.ty).clone(), false));
                            continue;
                        }
                        _ => return None,
                    }
                    al.declare(&mut p);
                    let n = match &p {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => return None,
                    };
                    pars.push((Some(n), (*t.ty).clone(), m));
                }
            }
        }
        al.visit_block_mut(&mut block);
        if al.bad {
            return None;
        }
        let orig = std::mem::take(&mut al.orig);
        // arguments
        let pure = d.sig.inputs.iter().all(|a| match a {
            FnArg::Receiver(r) => r.mutability.is_none(),
            FnArg::Typed(t) => !matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()),
        });
        let mut sub: BTreeMap<String, Arg> = BTreeMap::new();
        let mut pre: Vec<Stmt> = vec![];
        for (k, (name, ty, mutable)) in pars.iter().enumerate() {
            let a = strip(&args[k]).clone();
            let refty = match ty {
                Type::Reference(r) => Some(r.mutability.is_some()),
                _ => None,
            };
            if name.is_none() {
                // self
                let recv = d.sig.receiver()?;
                match (&recv.reference, method) {
                    (Some(_), _) => {
                        let m = recv.mutability.is_some();
                        let pl = match &a {
                            Expr::Reference(r) if is_place(&r.expr) => strip(&r.expr).clone(),
                            x if is_place(x) => x.clone(),
                            _ => return None,
                        };
                        sub.insert("self".into(), Arg::Place(pl, m));
                    }
                    (None, _) => {
                        if *mutable || !is_place(&a) || assigned(&d.block, "self") {
                            return None;
                        }
                        sub.insert("self".into(), Arg::Direct(a));
                    }
                }
                continue;
            }
            let name = name.clone().unwrap();
            if name.is_empty() {
                if !is_place(&a) {
                    pre.push(parse_quote!(let _ = #a;));
                }
                continue;
            }
            match (&a, refty) {
                (Expr::Reference(r), Some(m)) if is_place(&r.expr) && !mutable && (r.mutability.is_some() == m) => {
                    sub.insert(name, Arg::Place(strip(&r.expr).clone(), m));
                    continue;
                }
                (x, Some(_)) if is_var(x) && !mutable => {
                    sub.insert(name, Arg::Direct(x.clone()));
                    continue;
                }
                (x, None) if is_var(x) && !mutable && !assigned(&block, &name) => {
                    sub.insert(name, Arg::Direct(x.clone()));
                    continue;
                }
                (x, None) if is_place(x) && !mutable && !assigned(&block, &name) && pure => {
                    sub.insert(name, Arg::Direct(x.clone()));
                    continue;
                }
                (_, Some(true)) => return None,
                _ => {}
            }
            let id = Ident::new(&name, Span::call_site());
            let generic = d.generics.iter().any(|g| mentions(ty, g)) || mentions(ty, "impl") || mentions(ty, "Self");
            let arg = &args[k];
            pre.push(match (*mutable, generic) {
                (false, false) => parse_quote!(let #id: #ty = #arg;),
                (true, false) => parse_quote!(let mut #id: #ty = #arg;),
                (false, true) => parse_quote!(let #id = #arg;),
                (true, true) => parse_quote!(let mut #id = #arg;),
            });
        }
        for s in block.stmts.iter_mut() {
            Subst(&sub).visit_stmt_mut(s);
        }
        let tail = match block.stmts.pop_if_tail() {
            Some(Stmt::Expr(e, None)) => Some(e),
            _ => None,
        };
        // a diverging or unit body
        let mut stmts = pre;
        stmts.extend(block.stmts);
        if tail.is_none() && !is_unit(&d.sig.output) && !tried {
            return None;
        }
        self.done += 1;
        self.log.push(format!("inlined {} into {}", d.path, self.path));
        Some(Inlined { stmts, tail, orig, path: d.path.clone(), unit: is_unit(&d.sig.output) && !tried })
    }

    /// give the callee's locals their own names back where nothing else means them
    fn restore(&self, inl: &mut Inlined, rest: &[Stmt], bound: &[String], fixed: &BTreeMap<String, String>) {
        let mut map = fixed.clone();
        let taken: BTreeSet<String> = fixed.values().cloned().collect();
        let mut after: Vec<String> = vec![];
        vars_of(rest, None, &mut after);
        for (u, o) in &inl.orig {
            if map.contains_key(u) || taken.contains(o) {
                continue;
            }
            let at = inl.stmts.iter().position(|s| matches!(s, Stmt::Local(l) if mentions(&l.pat, u)));
            let mut seen = vec![];
            match at {
                Some(j) => {
                    vars_of(&inl.stmts[j + 1..], inl.tail.as_ref(), &mut seen);
                    if !bound.contains(o) && after.contains(o) {
                        continue;
                    }
                }
                None => vars_of(&inl.stmts, inl.tail.as_ref(), &mut seen),
            }
            if seen.contains(o) {
                continue;
            }
            map.insert(u.clone(), o.clone());
        }
        for s in inl.stmts.iter_mut() {
            Rename(&map).visit_stmt_mut(s);
        }
        if let Some(t) = &mut inl.tail {
            Rename(&map).visit_expr_mut(t);
        }
    }

    /// the call a statement is about: (call, under `?`, returned)
    fn site(s: &Stmt, tail: bool) -> Option<(Expr, bool, bool)> {
        fn q(e: &Expr) -> (Expr, bool) {
            match strip(e) {
                Expr::Try(t) => (strip(&t.expr).clone(), true),
                e => (e.clone(), false),
            }
        }
        match s {
            Stmt::Local(l) => {
                let i = l.init.as_ref()?;
                if i.diverge.is_some() {
                    return None;
                }
                let (c, t) = q(&i.expr);
                Some((c, t, false))
            }
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.as_ref()?;
                let (c, t) = q(e);
                Some((c, t, !t))
            }
            Stmt::Expr(Expr::Assign(a), _) => {
                let (c, t) = q(&a.right);
                Some((c, t, false))
            }
            Stmt::Expr(e, _) => {
                let (c, t) = q(e);
                Some((c, t, tail && !t))
            }
            _ => None,
        }
    }

    fn block(&mut self, b: &mut Block, top: bool) {
        let mut i = 0;
        while i < b.stmts.len() {
            let is_tail = i + 1 == b.stmts.len() && matches!(&b.stmts[i], Stmt::Expr(_, None));
            if self.done < 64 {
                if let Some((call, tried, ret)) = Self::site(&b.stmts[i], is_tail && top) {
                    if let Some((d, args, m)) = self.find(&call) {
                        // calls among the arguments first
                        let mut args2 = args;
                        for a in args2.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        if let Some(mut inl) = self.inst(&d, &args2, m, tried, ret) {
                            let rest = b.stmts[i + 1..].to_vec();
                            let new = self.place(b.stmts[i].clone(), &mut inl, &rest);
                            let _ = &inl.path;
                            b.stmts.splice(i..i + 1, new);
                            continue;
                        }
                    }
                }
            }
            if self.done < 64 {
                // a call that is the first thing the statement evaluates: its statements go before
                let mut s = b.stmts[i].clone();
                let body = match &mut s {
                    Stmt::Local(l) => l.init.as_mut().filter(|i| i.diverge.is_none()).map(|i| &mut *i.expr),
                    Stmt::Expr(e, _) => Some(e),
                    _ => None,
                };
                if let Some(slot) = body.and_then(|e| first(e, &|x| {
                    let c = match strip(x) {
                        Expr::Try(t) => strip(&t.expr),
                        c => c,
                    };
                    self.find(c).is_some()
                })) {
                    let (c, tried) = match strip(slot) {
                        Expr::Try(t) => (strip(&t.expr).clone(), true),
                        c => (c.clone(), false),
                    };
                    if let Some((d, mut args, m)) = self.find(&c) {
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        if let Some(mut inl) = self.inst(&d, &args, m, tried, false) {
                            if inl.tail.is_some() {
                                *slot = parse_quote!(__slot);
                                let mut rest = vec![s.clone()];
                                rest.extend(b.stmts[i + 1..].to_vec());
                                self.restore(&mut inl, &rest, &[], &BTreeMap::new());
                                let mut sub = BTreeMap::new();
                                let t = inl.tail.clone().unwrap();
                                let t = match &t {
                                    Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Index(_) | Expr::Lit(_) | Expr::Paren(_) => t,
                                    _ => parse_quote!((#t)),
                                };
                                sub.insert("__slot".to_string(), Arg::Direct(t));
                                Subst(&sub).visit_stmt_mut(&mut s);
                                let mut new = inl.stmts.clone();
                                new.push(s);
                                b.stmts.splice(i..i + 1, new);
                                continue;
                            }
                        }
                    }
                }
            }
            let mut s = b.stmts[i].clone();
            self.visit_stmt_mut(&mut s);
            b.stmts[i] = s;
            i += 1;
        }
    }

    fn place(&mut self, s: Stmt, inl: &mut Inlined, rest: &[Stmt]) -> Vec<Stmt> {
        let none = BTreeMap::new();
        match s {
            Stmt::Local(mut l) => {
                let (pat, ty) = match &l.pat {
                    Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                    p => (p.clone(), None),
                };
                let mut bound = vec![];
                idents_of(pat.to_token_stream(), &mut bound);
                // `let y = { ..; let x = e; ..; x }` is `..; let y = e; ..`
                let pairs: Option<Vec<(PatIdent, String)>> = match (&pat, inl.tail.as_ref().map(strip)) {
                    (Pat::Ident(p), Some(Expr::Path(t))) => t.path.get_ident().map(|x| vec![(p.clone(), x.to_string())]),
                    (Pat::Tuple(p), Some(Expr::Tuple(t))) if p.elems.len() == t.elems.len() => p
                        .elems
                        .iter()
                        .zip(t.elems.iter())
                        .map(|(a, b)| match (a, b) {
                            (Pat::Ident(a), Expr::Path(b)) => b.path.get_ident().map(|x| (a.clone(), x.to_string())),
                            _ => None,
                        })
                        .collect(),
                    _ => None,
                };
                if let Some(ps) = pairs {
                    let mut map = BTreeMap::new();
                    let mut ok = true;
                    for (p, x) in &ps {
                        let y = p.ident.to_string();
                        let at = inl.stmts.iter().position(|s| match s {
                            Stmt::Local(l) => match &l.pat {
                                Pat::Ident(i) => i.ident == x.as_str(),
                                Pat::Type(t) => matches!(&*t.pat, Pat::Ident(i) if i.ident == x.as_str()),
                                _ => false,
                            },
                            _ => false,
                        });
                        match at {
                            Some(j) if inl.orig.contains_key(x) && !map.contains_key(x) => {
                                if inl.stmts[j + 1..].iter().any(|s| mentions(s, &y)) {
                                    ok = false;
                                }
                                map.insert(x.clone(), y);
                            }
                            _ => ok = false,
                        }
                    }
                    if ok {
                        for (p, x) in &ps {
                            for s in inl.stmts.iter_mut() {
                                if let Stmt::Local(l) = s {
                                    let id = match &mut l.pat {
                                        Pat::Ident(i) => Some(i),
                                        Pat::Type(t) => match &mut *t.pat {
                                            Pat::Ident(i) => Some(i),
                                            _ => None,
                                        },
                                        _ => None,
                                    };
                                    if let Some(i) = id {
                                        if i.ident == x.as_str() && p.mutability.is_some() {
                                            i.mutability = p.mutability;
                                        }
                                    }
                                    if ps.len() == 1 && ty.is_some() && matches!(&l.pat, Pat::Ident(i) if i.ident == x.as_str()) {
                                        let (q, t) = (l.pat.clone(), ty.clone().unwrap());
                                        l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(t) });
                                    }
                                }
                            }
                        }
                        inl.tail = None;
                        self.restore(inl, rest, &bound, &map);
                        return inl.stmts.clone();
                    }
                }
                self.restore(inl, rest, &bound, &none);
                let mut out = inl.stmts.clone();
                match &inl.tail {
                    Some(t) => {
                        l.init.as_mut().unwrap().expr = Box::new(t.clone());
                        out.push(Stmt::Local(l));
                    }
                    None => {
                        if let Some(i) = l.init.as_mut() {
                            i.expr = Box::new(parse_quote!(()));
                        }
                        out.push(Stmt::Local(l));
                    }
                }
                out
            }
            Stmt::Expr(Expr::Return(mut r), semi) => {
                self.restore(inl, rest, &[], &none);
                let mut out = inl.stmts.clone();
                r.expr = inl.tail.clone().map(Box::new);
                out.push(Stmt::Expr(Expr::Return(r), semi));
                out
            }
            Stmt::Expr(Expr::Assign(mut a), semi) => {
                self.restore(inl, rest, &[], &none);
                // the assigned place is named after the callee's statements: it must mean the same there
                let mut ids = vec![];
                idents_of(a.left.to_token_stream(), &mut ids);
                let back: BTreeMap<String, String> = BTreeMap::new();
                let _ = back;
                let clash = inl.stmts.iter().any(|s| matches!(s, Stmt::Local(l) if ids.iter().any(|i| mentions(&l.pat, i))));
                let mut out = inl.stmts.clone();
                if let Some(t) = &inl.tail {
                    if clash {
                        let st = &inl.stmts;
                        a.right = Box::new(parse_quote!({ #(#st)* #t }));
                        return vec![Stmt::Expr(Expr::Assign(a), semi)];
                    }
                    a.right = Box::new(t.clone());
                }
                out.push(Stmt::Expr(Expr::Assign(a), semi));
                out
            }
            Stmt::Expr(_, semi) => {
                self.restore(inl, rest, &[], &none);
                let mut out = inl.stmts.clone();
                if let Some(t) = &inl.tail {
                    let unit = matches!(t, Expr::Tuple(t) if t.elems.is_empty());
                    let block = matches!(t, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_));
                    if !(unit && semi.is_some()) {
                        out.push(Stmt::Expr(t.clone(), if block && inl.unit { None } else { semi }));
                    }
                }
                out
            }
            s => vec![s],
        }
    }
}

impl<'a> VisitMut for Ctx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block(b, false);
    }
    fn visit_expr_closure_mut(&mut self, _c: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.done >= 64 {
            return;
        }
        let (call, tried) = match &*e {
            Expr::Try(t) => (strip(&t.expr).clone(), true),
            Expr::Call(_) | Expr::MethodCall(_) => (e.clone(), false),
            _ => return,
        };
        if let Some((d, args, m)) = self.find(&call) {
            if let Some(mut inl) = self.inst(&d, &args, m, tried, false) {
                self.restore(&mut inl, &[], &[], &BTreeMap::new());
                let st = &inl.stmts;
                *e = match (&inl.tail, st.is_empty()) {
                    (Some(t), true) => parse_quote!((#t)),
                    (Some(t), false) => parse_quote!({ #(#st)* #t }),
                    (None, _) => parse_quote!({ #(#st)* }),
                };
                visit_mut::visit_expr_mut(self, e);
            }
        }
    }
}

fn walk(items: &mut [Item], m: &str, cands: &[Callee], names: &HashMap<String, usize>, consts: &BTreeSet<String>, log: &mut Vec<String>) {
    for it in items.iter_mut() {
        match it {
            Item::Mod(md) => {
                let p = jn(m, &md.ident.to_string());
                if let Some((_, its)) = &mut md.content {
                    walk(its, &p, cands, names, consts, log);
                }
            }
            Item::Fn(f) => {
                let path = jn(m, &f.sig.ident.to_string());
                let mut c = Ctx { cands, names, consts, module: m.into(), owner: String::new(), out: f.sig.output.clone(), path, n: 0, done: 0, log };
                c.block(&mut f.block, true);
            }
            Item::Impl(i) => {
                let self_ty = ts(&*i.self_ty);
                let key = match &i.trait_ {
                    Some((_, p, _)) => format!("<{} as {}>", self_ty, ts(p)),
                    None => self_ty.clone(),
                };
                for x in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        let path = jn(m, &format!("{}::{}", key, f.sig.ident));
                        let mut c = Ctx { cands, names, consts, module: m.into(), owner: self_ty.clone(), out: f.sig.output.clone(), path, n: 0, done: 0, log };
                        c.block(&mut f.block, true);
                    }
                }
            }
            Item::Trait(t) => {
                for x in t.items.iter_mut() {
                    if let TraitItem::Fn(f) = x {
                        if let Some(b) = &mut f.default {
                            let path = jn(m, &format!("{}::{}", t.ident, f.sig.ident));
                            let mut c = Ctx { cands, names, consts, module: m.into(), owner: t.ident.to_string(), out: f.sig.output.clone(), path, n: 0, done: 0, log };
                            c.block(b, true);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn apply(f: &mut File, known: &BTreeSet<String>, log: &mut Vec<String>) {
    let mut cands = vec![];
    let mut names = HashMap::new();
    collect(&f.items, "", known, &mut cands, &mut names);
    let consts = consts_of(f);
    walk(&mut f.items, "", &cands, &names, &consts, log);
}

pub fn consts_of(f: &File) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_variant(&mut self, v: &'a Variant) {
            self.0.insert(v.ident.to_string());
        }
        fn visit_item_const(&mut self, c: &'a ItemConst) {
            self.0.insert(c.ident.to_string());
        }
        fn visit_item_static(&mut self, c: &'a ItemStatic) {
            self.0.insert(c.ident.to_string());
        }
        fn visit_item_struct(&mut self, c: &'a ItemStruct) {
            if matches!(c.fields, Fields::Unit) {
                self.0.insert(c.ident.to_string());
            }
        }
    }
    let mut v = V(BTreeSet::new());
    v.visit_file(f);
    v.0.retain(|n| n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_'));
    v.0
}

// ---------------------------------------------------------------- names of locals and parameters
fn alpha(sig: &Signature, b: &Block, consts: &BTreeSet<String>, plain: bool) -> Option<(Signature, Block, Vec<(String, String)>)> {
    if !movable(b) {
        return None;
    }
    let (mut sig, mut b) = (sig.clone(), b.clone());
    let mut n = 0;
    let mut al = Alpha { scopes: vec![HashMap::new()], n: &mut n, orig: BTreeMap::new(), order: vec![], consts, plain, bad: false };
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            al.declare(&mut t.pat);
        }
    }
    al.visit_block_mut(&mut b);
    if al.bad {
        return None;
    }
    let o: Vec<(String, String)> = al.order.iter().map(|u| (u.clone(), al.orig[u].clone())).collect();
    Some((sig, b, o))
}

/// the names a function binds, in order
pub fn binders(sig: &Signature, b: &Block, consts: &BTreeSet<String>) -> Vec<String> {
    alpha(sig, b, consts, false).map(|x| x.2.into_iter().map(|y| y.1).collect()).unwrap_or_default()
}

/// R20: a name that the contracts do not know, in the place of one that they do and that is gone, is that one under
/// another name.  Renaming is checked to leave the function the same up to bound names.
fn rename_fn(sig: &mut Signature, b: &mut Block, base: &[String], consts: &BTreeSet<String>) -> Option<Vec<(String, String)>> {
    let (s2, b2, order) = alpha(sig, b, consts, false)?;
    let cur: Vec<String> = order.iter().map(|x| x.1.clone()).collect();
    if cur == base {
        return None;
    }
    // longest common subsequence, then gaps of new names against gaps of missing ones
    let (n, m) = (cur.len(), base.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if cur[i] == base[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut by: BTreeMap<String, String> = BTreeMap::new();
    let (mut gi, mut gj) = (vec![], vec![]);
    loop {
        let at = i < n && j < m && cur[i] == base[j];
        if at || (i >= n && j >= m) {
            let a: Vec<usize> = gi.iter().cloned().filter(|&k: &usize| !base.contains(&cur[k])).collect();
            let c: Vec<usize> = gj.iter().cloned().filter(|&k: &usize| !cur.contains(&base[k])).collect();
            if gi.len() == gj.len() {
                for (x, y) in gi.iter().zip(gj.iter()) {
                    if !base.contains(&cur[*x]) {
                        map.insert(order[*x].0.clone(), base[*y].clone());
                        by.insert(cur[*x].clone(), base[*y].clone());
                    }
                }
            } else if a.len() == c.len() {
                for (x, y) in a.iter().zip(c.iter()) {
                    map.insert(order[*x].0.clone(), base[*y].clone());
                    by.insert(cur[*x].clone(), base[*y].clone());
                }
            }
            gi.clear();
            gj.clear();
            if !at {
                break;
            }
            i += 1;
            j += 1;
            continue;
        }
        if i < n && (j >= m || l[i + 1][j] >= l[i][j + 1]) {
            gi.push(i);
            i += 1;
        } else {
            gj.push(j);
            j += 1;
        }
    }
    if by.is_empty() {
        return None;
    }
    let mut full: BTreeMap<String, String> = BTreeMap::new();
    for (u, o) in &order {
        full.insert(u.clone(), map.get(u).cloned().unwrap_or_else(|| o.clone()));
    }
    let (mut s3, mut b3) = (s2, b2);
    Rename(&full).visit_signature_mut(&mut s3);
    Rename(&full).visit_block_mut(&mut b3);
    let (sa, ba, _) = alpha(sig, b, consts, true)?;
    let (sb, bb, _) = alpha(&s3, &b3, consts, true)?;
    if ts(&sa) != ts(&sb) || ts(&ba) != ts(&bb) {
        return None;
    }
    *sig = s3;
    *b = b3;
    Some(by.into_iter().collect())
}

pub fn names(f: &mut File, base: &BTreeMap<String, Vec<String>>, log: &mut Vec<String>) {
    let consts = consts_of(f);
    fn go(items: &mut [Item], m: &str, base: &BTreeMap<String, Vec<String>>, consts: &BTreeSet<String>, log: &mut Vec<String>) {
        let mut one = |path: String, sig: &mut Signature, b: &mut Block| {
            if let Some(bs) = base.get(&path) {
                if let Some(r) = rename_fn(sig, b, bs, consts) {
                    log.push(format!("renamed in {}: {}", path, r.iter().map(|(a, b)| format!("{} -> {}", a, b)).collect::<Vec<_>>().join(", ")));
                }
            }
        };
        for it in items.iter_mut() {
            match it {
                Item::Fn(f) => one(jn(m, &f.sig.ident.to_string()), &mut f.sig, &mut f.block),
                Item::Impl(i) => {
                    let self_ty = ts(&*i.self_ty);
                    let key = match &i.trait_ {
                        Some((_, p, _)) => format!("<{} as {}>", self_ty, ts(p)),
                        None => self_ty,
                    };
                    for x in i.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            one(jn(m, &format!("{}::{}", key, f.sig.ident)), &mut f.sig, &mut f.block);
                        }
                    }
                }
                Item::Trait(t) => {
                    for x in t.items.iter_mut() {
                        if let TraitItem::Fn(f) = x {
                            if let Some(b) = &mut f.default {
                                one(jn(m, &format!("{}::{}", t.ident, f.sig.ident)), &mut f.sig, b);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        for it in items.iter_mut() {
            if let Item::Mod(md) = it {
                let p = jn(m, &md.ident.to_string());
                if let Some((_, its)) = &mut md.content {
                    go(its, &p, base, consts, log);
                }
            }
        }
    }
    go(&mut f.items, "", base, &consts, log);
}

// ---------------------------------------------------------------- loops
/// R21: `let mut i = a; while i < b { ..; i += 1; }` is `for i in a..b { .. }`, `let mut i = b; while i > 0 { i -= 1; .. }` is
/// `for i in (0..b).rev() { .. }`, and a loop over the elements of a variable or field is a loop over its indices
pub struct Loops<'a> {
    pub log: &'a mut Vec<String>,
    n: usize,
    name: String,
}
impl<'a> Loops<'a> {
    pub fn new(log: &'a mut Vec<String>) -> Self {
        Loops { log, n: 0, name: String::new() }
    }
    fn var_plus_one(s: &Stmt, v: &Ident, op: &str) -> bool {
        matches!(s, Stmt::Expr(Expr::Binary(b), _) if ts(&b.op) == op && matches!(&*b.left, Expr::Path(p) if p.path.is_ident(v)) && ts(&b.right).trim_end_matches("usize") == "1")
    }
    fn continues(b: &Block) -> bool {
        struct V(bool);
        impl<'b> Visit<'b> for V {
            fn visit_expr_continue(&mut self, _c: &'b ExprContinue) {
                self.0 = true;
            }
            fn visit_expr_break(&mut self, b: &'b ExprBreak) {
                if b.label.is_some() {
                    self.0 = true;
                }
            }
        }
        let mut v = V(false);
        v.visit_block(b);
        v.0
    }
    /// an upper bound whose value the body cannot change
    fn fixed(e: &Expr, body: &Block) -> bool {
        match strip(e) {
            Expr::Lit(_) => true,
            Expr::Path(p) => match p.path.get_ident() {
                Some(i) => i.to_string().chars().next().unwrap().is_uppercase() || !assigned(body, &i.to_string()),
                None => true,
            },
            Expr::Binary(b) => Self::fixed(&b.left, body) && Self::fixed(&b.right, body),
            Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() && is_place(&m.receiver) => {
                struct V<'b>(String, &'b mut bool);
                impl<'b, 'c> Visit<'c> for V<'b> {
                    fn visit_expr_method_call(&mut self, m: &'c ExprMethodCall) {
                        if ts(&m.receiver) == self.0 && !["len", "iter", "is_empty", "get"].contains(&m.method.to_string().as_str()) {
                            *self.1 = false;
                        }
                        visit::visit_expr_method_call(self, m);
                    }
                    fn visit_expr_assign(&mut self, a: &'c ExprAssign) {
                        if ts(&a.left) == self.0 {
                            *self.1 = false;
                        }
                        visit::visit_expr_assign(self, a);
                    }
                    fn visit_expr_reference(&mut self, r: &'c ExprReference) {
                        if r.mutability.is_some() && ts(&r.expr) == self.0 {
                            *self.1 = false;
                        }
                        visit::visit_expr_reference(self, r);
                    }
                }
                let mut ok = matches!(strip(&m.receiver), Expr::Path(p) if !p.path.is_ident("self"));
                V(ts(&m.receiver), &mut ok).visit_block(body);
                ok
            }
            _ => false,
        }
    }
    fn counting(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut new = None;
            if let Stmt::Expr(Expr::While(w), _) = &b.stmts[i] {
                if let Expr::Binary(c) = strip(&w.cond) {
                    let v = match strip(&c.left) {
                        Expr::Path(p) => p.path.get_ident().cloned(),
                        _ => None,
                    };
                    if let (Some(v), None) = (v, &w.label) {
                        // its `let mut`, not used in between nor afterwards
                        let at = (0..i).rev().find(|&k| mentions(&b.stmts[k], &v.to_string()));
                        let init = at.and_then(|k| match &b.stmts[k] {
                            Stmt::Local(l) if l.init.as_ref().map_or(false, |x| x.diverge.is_none()) => {
                                let p = match &l.pat {
                                    Pat::Type(t) => &*t.pat,
                                    p => p,
                                };
                                match p {
                                    Pat::Ident(q) if q.ident == v && q.mutability.is_some() => Some((*l.init.as_ref().unwrap().expr).clone()),
                                    _ => None,
                                }
                            }
                            _ => None,
                        });
                        let dead = !b.stmts[i + 1..].iter().any(|s| mentions(s, &v.to_string()));
                        let op = ts(&c.op);
                        let n = w.body.stmts.len();
                        if let (Some(a), true, true) = (init, dead, n > 0 && !Self::continues(&w.body)) {
                            let mut body = w.body.clone();
                            let lab = &w.label;
                            let simple = matches!(strip(&a), Expr::Lit(_)) || Self::fixed(&a, &Block { brace_token: Default::default(), stmts: b.stmts[at.unwrap() + 1..i].to_vec() });
                            if (op == "<" || op == "!=") && simple && Self::var_plus_one(&body.stmts[n - 1], &v, "+=") {
                                body.stmts.pop();
                                let up = op == "<" || matches!(strip(&a), Expr::Lit(l) if ts(l).trim_end_matches("usize") == "0");
                                if up && !assigned(&body, &v.to_string()) && Self::fixed(&c.right, &body) {
                                    let hi = &c.right;
                                    new = Some((at.unwrap(), parse_quote!(#lab for #v in #a..#hi #body)));
                                }
                            } else if (op == ">" || op == "!=") && simple && ts(&c.right) == "0" && Self::var_plus_one(&body.stmts[0], &v, "-=") {
                                body.stmts.remove(0);
                                if !assigned(&body, &v.to_string()) {
                                    new = Some((at.unwrap(), parse_quote!(#lab for #v in (0..#a).rev() #body)));
                                }
                            }
                        }
                    }
                }
            }
            if let Some((k, e)) = new {
                let e: ExprForLoop = e;
                b.stmts[i] = Stmt::Expr(Expr::ForLoop(e), None);
                b.stmts.remove(k);
                self.log.push(format!("loop rewritten in {}", self.name));
            } else {
                i += 1;
            }
        }
    }
}
impl<'a> VisitMut for Loops<'a> {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        self.n = 0;
        self.name = f.sig.ident.to_string();
        visit_mut::visit_item_fn_mut(self, f);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        self.n = 0;
        self.name = f.sig.ident.to_string();
        visit_mut::visit_impl_item_fn_mut(self, f);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        self.counting(b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(l) = e {
            let (x, by_ref) = match strip(&l.expr) {
                Expr::MethodCall(m) if (m.method == "iter" || m.method == "iter_mut") && m.args.is_empty() && is_place(&m.receiver) => ((*m.receiver).clone(), m.method == "iter_mut"),
                Expr::Reference(r) if is_place(&r.expr) => ((*r.expr).clone(), r.mutability.is_some()),
                _ => return,
            };
            let (id, bare) = match &*l.pat {
                Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => (i.ident.to_string(), false),
                Pat::Reference(r) => match &*r.pat {
                    Pat::Ident(i) if i.subpat.is_none() && i.mutability.is_none() => (i.ident.to_string(), true),
                    _ => return,
                },
                _ => return,
            };
            if !movable(&l.body) || rebinds(&l.body, &id) {
                return;
            }
            self.n += 1;
            let k = Ident::new(&format!("__i{}", self.n), Span::call_site());
            let pl: Expr = parse_quote!(#x[#k]);
            let mut sub = BTreeMap::new();
            sub.insert(id, if bare { Arg::Direct(pl) } else { Arg::Place(pl, by_ref) });
            let mut body = l.body.clone();
            Subst(&sub).visit_block_mut(&mut body);
            let lab = &l.label;
            self.log.push(format!("loop rewritten in {}", self.name));
            *e = parse_quote!(#lab for #k in 0..#x.len() #body);
        }
    }
}
fn rebinds(b: &Block, name: &str) -> bool {
    struct V<'b>(&'b str, bool);
    impl<'b, 'c> Visit<'c> for V<'b> {
        fn visit_pat_ident(&mut self, p: &'c PatIdent) {
            if p.ident == self.0 {
                self.1 = true;
            }
        }
        fn visit_field_value(&mut self, f: &'c FieldValue) {
            if f.colon_token.is_none() && ts(&f.expr) == self.0 {
                self.1 = true;
            }
            visit::visit_field_value(self, f);
        }
    }
    let mut v = V(name, false);
    v.visit_block(b);
    v.1
}

#[allow(dead_code)]
fn unused() {
    let _ = (quote!(), last);
}
