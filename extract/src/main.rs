//! Extracts the functions under contract from the crate in /repo and writes one
//! annotated Verus file. The text of the code is copied byte for byte; what is changed:
//!   - `#[cfg(test)]` modules and modules named `tests` are left out, as are modules
//!     outside --keep; out-of-line modules become inline modules of one file;
//!   - struct fields, modules and `type` items become `pub` (contracts may name them);
//!   - derives other than Clone/Copy/PartialEq/Eq are dropped (overlay may drop Clone);
//!   - `for PAT in E BODY` in a function under contract is written as what it stands for:
//!     `let mut it = IntoIterator::into_iter(E); loop { match it.next() { Some(PAT) => BODY, None => break } }`
//!     (E = `I.by_ref()`: next() on I itself; E = `I.map(|p| X)`: next() on I, X applied to p);
//!   - `mut self` becomes `let mut self_ = self;` with `self_` for `self` in the body; a closure
//!     parameter `_` gets a name, other patterns P (`mut x`, `(a, b)`) become `let P = ..` in the body of the closure;
//!   - print macros are left out (their arguments are evaluated); where an overlay has @panic P,
//!     `panic!(..)` becomes `assert(P)` (a proof obligation) and the end of the program; where it
//!     has @print F, what is printed goes to F1, F2, .. (by number of values), which record it; where it
//!     has @ghost T / @ghostcall M.., the function has a ghost parameter `&mut T` and passes it on
//!     to calls of the methods M (ghost: no run-time effect); where it has @call M=F, a call `R.M(..)`
//!     is written `F(R, ..)`, F a stand-in with the contract of the provided method M;
//!     where it has @result T, the function, if it is not verified in this unit, gives the stand-in T
//!     for its `impl Trait` result (contract @resultspec: a part of the contract proved of the
//!     function in another unit);
//!   - a closure with @closureendN has the body `{ let verif_r = BODY; proof block; verif_r }`;
//!   - where an overlay has an @exit block: `return E` / a tail expression E become
//!     `{ let verif_ret = E; proof block; return verif_ret }`;
//!   - a call of a function that has no contract is replaced by the body of that function
//!     where that is possible (helper functions need no contract of their own);
//!   - contracts, loop invariants and proof blocks of the overlays are inserted;
//!   - functions in the unit that are not to be verified in this run keep their contract and
//!     get `external_body`; functions without a contract get `external`.
//! Everything it did is written to --report.

use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default, Clone, Debug)]
struct FnOv {
    ret: String,
    sections: BTreeMap<String, String>,
    binds: BTreeMap<String, String>,
    external: bool,
}

#[derive(Default, Debug)]
struct Overlay {
    prelude: String,
    fns: BTreeMap<String, FnOv>,
    traits: BTreeMap<String, String>,
    impls: BTreeMap<String, String>,
    structs: BTreeMap<String, (Vec<String>, String)>, // (drop derives, attrs/items)
    uses: BTreeMap<String, String>,
    items: BTreeMap<String, String>,
    /// of these modules only the named items are part of the unit (-use: not the `use` lines either)
    only: BTreeMap<String, Vec<String>>,
}

fn read_overlay(p: &Path, o: &mut Overlay) {
    let text = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e));
    let mut kind = String::new();
    let mut key = String::new();
    let mut sec = String::new();
    for line in text.lines() {
        if let Some(h) = line.strip_prefix("=== ") {
            let (k, rest) = h.split_once(' ').unwrap_or((h, ""));
            kind = k.to_string();
            key = rest.trim().to_string();
            sec = String::new();
            if kind == "trait" {
                o.traits.entry(key.clone()).or_default();
            }
            if kind == "impl" {
                o.impls.entry(key.clone()).or_default();
            }
            if kind == "fn" {
                o.fns.entry(key.clone()).or_insert(FnOv { ret: "ret".into(), ..Default::default() });
            }
            continue;
        }
        match kind.as_str() {
            "prelude" => {
                o.prelude.push_str(line);
                o.prelude.push('\n');
            }
            "fn" => {
                let f = o.fns.get_mut(&key).unwrap();
                if let Some(d) = line.strip_prefix('@') {
                    let (d, rest) = d.split_once(' ').unwrap_or((d, ""));
                    match d {
                        "ret" => f.ret = rest.trim().into(),
                        "external" => f.external = true,
                        "bind" => {
                            let (a, b) = rest.split_once('=').unwrap();
                            f.binds.insert(a.trim().into(), b.trim().into());
                        }
                        _ => sec = d.to_string(),
                    }
                } else if !sec.is_empty() {
                    let s = f.sections.entry(sec.clone()).or_default();
                    s.push_str(line);
                    s.push('\n');
                }
            }
            "trait" => app(o.traits.entry(key.clone()).or_default(), line),
            "impl" => app(o.impls.entry(key.clone()).or_default(), line),
            "uses" => app(o.uses.entry(key.clone()).or_default(), line),
            "only" => o.only.entry(key.clone()).or_default().extend(line.split_whitespace().map(|x| x.to_string())),
            "items" => app(o.items.entry(key.clone()).or_default(), line),
            "struct" => {
                let e = o.structs.entry(key.clone()).or_default();
                if line.trim() == "@private" {
                    e.0.push("@private".into());
                } else if let Some(d) = line.strip_prefix("@drop ") {
                    e.0.extend(d.split_whitespace().map(|s| s.to_string()));
                } else {
                    app(&mut e.1, line)
                }
            }
            _ => {}
        }
    }
}
fn app(s: &mut String, l: &str) {
    s.push_str(l);
    s.push('\n');
}

struct Ctx {
    ov: Overlay,
    verify: BTreeSet<String>,
    falsify: bool,
    norm: bool,
    also: Vec<String>,
    main_crate: String,
    keep: Option<BTreeSet<String>>,
    binds: BTreeMap<(String, String), String>,
    report: Vec<String>,
    seen: BTreeSet<String>,
    helpers: BTreeMap<String, Helper>,
    /// trait names whose impls have contracts
    out: String,
}

#[derive(Clone)]
struct Helper {
    generics: Vec<String>,
    params: Vec<(String, bool)>, // pattern text, is self
    body: String,                // with braces
    early: bool,                 // has return or ?
    ret: bool,
    used: bool,
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        _ => "?".into(),
    }
}
fn impl_key(i: &syn::ItemImpl) -> String {
    match &i.trait_ {
        Some((_, p, _)) => format!("{} for {}", p.segments.last().unwrap().ident, ty_name(&i.self_ty)),
        None => ty_name(&i.self_ty),
    }
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && quote::quote!(#a).to_string().replace(' ', "").contains("cfg(test)")
            || a.path().is_ident("test")
    })
}

#[derive(Default)]
struct Edits(Vec<(Range<usize>, String, usize)>);
impl Edits {
    fn ins(&mut self, at: usize, s: impl Into<String>) {
        let n = self.0.len();
        self.0.push((at..at, s.into(), n));
    }
    fn rep(&mut self, r: Range<usize>, s: impl Into<String>) {
        let n = self.0.len();
        self.0.push((r, s.into(), n));
    }
    fn apply(mut self, src: &str) -> String {
        self.0.sort_by_key(|e| (e.0.start, e.0.end, e.2));
        let mut out = String::new();
        let mut pos = 0;
        for (r, s, _) in self.0 {
            if r.start < pos {
                // nested in a replaced range
                continue;
            }
            out.push_str(&src[pos..r.start]);
            out.push_str(&s);
            pos = r.end;
        }
        out.push_str(&src[pos..]);
        out
    }
}

fn rng(s: proc_macro2::Span) -> Range<usize> {
    s.byte_range()
}

/// loops of a function body, outermost first; not those within closures or nested items
struct Loops {
    list: Vec<LoopInfo>,
    locals: Vec<String>,
    depth: usize,
}
enum LoopKind {
    Loop,
    While,
    For { whole: Range<usize>, label: Option<String>, pat: String, expr: syn::Expr },
}
struct LoopInfo {
    kind: LoopKind,
    open: usize,  // position of {
    close: usize, // position of }
    depth: usize,
}
struct LV<'s> {
    src: &'s str,
    l: Loops,
}
impl<'ast, 's> Visit<'ast> for LV<'s> {
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.l.list.push(LoopInfo {
            kind: LoopKind::Loop,
            open: rng(e.body.brace_token.span.open()).start,
            close: rng(e.body.brace_token.span.close()).start,
            depth: self.l.depth,
        });
        self.l.depth += 1;
        syn::visit::visit_expr_loop(self, e);
        self.l.depth -= 1;
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.l.list.push(LoopInfo {
            kind: LoopKind::While,
            open: rng(e.body.brace_token.span.open()).start,
            close: rng(e.body.brace_token.span.close()).start,
            depth: self.l.depth,
        });
        self.l.depth += 1;
        syn::visit::visit_expr_while(self, e);
        self.l.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        self.l.list.push(LoopInfo {
            kind: LoopKind::For {
                whole: rng(e.span()),
                label: e.label.as_ref().map(|l| self.src[rng(l.span())].to_string()),
                pat: self.src[rng(e.pat.span())].to_string(),
                expr: (*e.expr).clone(),
            },
            open: rng(e.body.brace_token.span.open()).start,
            close: rng(e.body.brace_token.span.close()).start,
            depth: self.l.depth,
        });
        self.l.depth += 1;
        syn::visit::visit_expr_for_loop(self, e);
        self.l.depth -= 1;
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if p.mutability.is_some() {
            self.l.locals.push(p.ident.to_string());
        }
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

struct Early(bool);
impl<'ast> Visit<'ast> for Early {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

/// calls that could be of helpers, with "tail position" flag
struct Calls<'s> {
    src: &'s str,
    names: &'s BTreeMap<String, Helper>,
    me: String,    // self type or ""
    found: Vec<(Range<usize>, String, Vec<String>, Vec<String>, bool)>, // range, helper key, args, turbofish, tail
    tails: BTreeSet<(usize, usize)>,
}
impl<'s> Calls<'s> {
    fn mark_tail(&mut self, b: &syn::Block) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            self.mark_tail_expr(e)
        }
    }
    fn mark_tail_expr(&mut self, e: &syn::Expr) {
        let r = rng(e.span());
        self.tails.insert((r.start, r.end));
        match e {
            syn::Expr::If(i) => {
                self.mark_tail(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.mark_tail_expr(e)
                }
            }
            syn::Expr::Match(m) => m.arms.iter().for_each(|a| self.mark_tail_expr(&a.body)),
            syn::Expr::Block(b) => self.mark_tail(&b.block),
            _ => {}
        }
    }
}
impl<'ast, 's> Visit<'ast> for Calls<'s> {
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        if let Some(x) = &e.expr {
            self.mark_tail_expr(x);
        }
        syn::visit::visit_expr_return(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let last = segs.last().unwrap().clone();
            let mut cands = vec![];
            if segs.len() == 1 {
                cands.push(last.clone());
            } else {
                let t = &segs[segs.len() - 2];
                let t = if t == "Self" { self.me.clone() } else { t.clone() };
                cands.push(format!("{}::{}", t, last));
                cands.push(last.clone()); // module path
            }
            let mut tf = vec![];
            if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                for g in &a.args {
                    if !matches!(g, syn::GenericArgument::Lifetime(_)) {
                        tf.push(self.src[rng(g.span())].to_string());
                    }
                }
            }
            for c in cands {
                if self.names.contains_key(&c) {
                    let args = e.args.iter().map(|a| self.src[rng(a.span())].to_string()).collect();
                    let r = rng(e.span());
                    let tail = self.tails.contains(&(r.start, r.end));
                    self.found.push((r, c, args, tf.clone(), tail));
                    break;
                }
            }
        }
        syn::visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let recv = &self.src[rng(e.receiver.span())];
        if recv == "self" {
            let c = format!("{}::{}", self.me, e.method);
            if self.names.contains_key(&c) {
                let mut args = vec!["self".to_string()];
                args.extend(e.args.iter().map(|a| self.src[rng(a.span())].to_string()));
                let r = rng(e.span());
                let tail = self.tails.contains(&(r.start, r.end));
                self.found.push((r, c, args, vec![], tail));
            }
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

/// a body without `?` and `return`: what comes behind them moves into the arm or branch that goes on
struct Flat<'s> {
    src: &'s str,
    /// (the arm that goes on, the arms that end)
    kind: Option<(&'static str, &'static str)>,
    n: usize,
}
fn has_early(f: impl FnOnce(&mut Early)) -> bool {
    let mut e = Early(false);
    f(&mut e);
    e.0
}
impl<'s> Flat<'s> {
    fn t(&self, r: Range<usize>) -> String {
        self.src[r].to_string()
    }
    fn block(&mut self, b: &syn::Block) -> Option<String> {
        self.stmts(&b.stmts)
    }
    fn stmts(&mut self, st: &[syn::Stmt]) -> Option<String> {
        let Some(s) = st.first() else { return Some(String::new()) };
        let rest = &st[1..];
        if !has_early(|e| e.visit_stmt(s)) {
            let r = rng(s.span());
            return Some(format!("{} {}", self.t(r), self.stmts(rest)?));
        }
        match s {
            syn::Stmt::Local(l) => {
                let i = l.init.as_ref()?;
                if i.diverge.is_some() {
                    return None;
                }
                let pat = self.t(rng(l.pat.span()));
                let (op, whole) = self.first_try(&i.expr)?;
                let q = format!("verif_q{}", self.n);
                let r = rng(i.expr.span());
                let e = format!("{}{}{}", self.t(r.start..whole.start), q, self.t(whole.end..r.end));
                let tail = self.stmts(rest)?;
                self.wrap(&op, &q, format!("let {} = {}; {}", pat, e, tail), &e)
            }
            syn::Stmt::Expr(syn::Expr::Return(x), _) => {
                let x = x.expr.as_ref()?;
                self.tail(x)
            }
            syn::Stmt::Expr(syn::Expr::If(i), semi) => {
                if has_early(|e| e.visit_expr(&i.cond)) {
                    return None;
                }
                let c = self.t(rng(i.cond.span()));
                if i.else_branch.is_none() {
                    // if C { ..; return X } REST
                    let last = i.then_branch.stmts.last()?;
                    if !matches!(last, syn::Stmt::Expr(syn::Expr::Return(_), _)) {
                        return None;
                    }
                    let (a, b) = (self.block(&i.then_branch)?, self.stmts(rest)?);
                    return Some(format!("if {} {{ {} }} else {{ {} }}", c, a, b));
                }
                if rest.is_empty() && semi.is_none() {
                    let (_, x) = i.else_branch.as_ref()?;
                    let (a, b) = (self.block(&i.then_branch)?, self.tail(x)?);
                    return Some(format!("if {} {{ {} }} else {{ {} }}", c, a, b));
                }
                None
            }
            syn::Stmt::Expr(x, None) if rest.is_empty() => self.tail(x),
            syn::Stmt::Expr(x, Some(_)) => {
                let (op, whole) = self.first_try(x)?;
                let q = format!("verif_q{}", self.n);
                let r = rng(x.span());
                let e = format!("{}{}{}", self.t(r.start..whole.start), q, self.t(whole.end..r.end));
                let tail = self.stmts(rest)?;
                self.wrap(&op, &q, format!("let _ = {}; {}", e, tail), &e)
            }
            _ => None,
        }
    }
    fn wrap(&self, op: &str, q: &str, go: String, e: &str) -> Option<String> {
        let (some, none) = self.kind?;
        if e.contains('?') {
            return None;
        }
        Some(format!("match {} {{ {}({}) => {{ {} }} {} }}", op, some, q, go, none))
    }
    /// the operand of the `?` that is evaluated first, when nothing else is evaluated before it
    fn first_try(&mut self, e: &syn::Expr) -> Option<(String, Range<usize>)> {
        struct V(Vec<(Range<usize>, Range<usize>)>);
        impl<'a> Visit<'a> for V {
            fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
                self.0.push((rng(t.expr.span()), rng(t.span())));
            }
            fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        }
        let mut v = V(vec![]);
        v.visit_expr(e);
        if v.0.len() != 1 {
            return None;
        }
        let (op, whole) = v.0.pop()?;
        let before = &self.src[rng(e.span()).start..whole.start];
        if !before.chars().all(|c| c.is_alphanumeric() || "_:(&! ".contains(c)) {
            return None;
        }
        self.n += 1;
        Some((self.t(op), whole))
    }
    fn tail(&mut self, e: &syn::Expr) -> Option<String> {
        if !has_early(|v| v.visit_expr(e)) {
            return Some(self.t(rng(e.span())));
        }
        match e {
            syn::Expr::Return(x) => self.tail(x.expr.as_ref()?),
            syn::Expr::Block(b) if b.label.is_none() => self.block(&b.block).map(|b| format!("{{ {} }}", b)),
            syn::Expr::If(i) => {
                if has_early(|v| v.visit_expr(&i.cond)) {
                    return None;
                }
                let c = self.t(rng(i.cond.span()));
                let (_, x) = i.else_branch.as_ref()?;
                let (a, b) = (self.block(&i.then_branch)?, self.tail(x)?);
                Some(format!("if {} {{ {} }} else {{ {} }}", c, a, b))
            }
            syn::Expr::Match(m) => {
                if has_early(|v| v.visit_expr(&m.expr)) || m.arms.iter().any(|a| a.guard.is_some()) {
                    return None;
                }
                let mut o = format!("match {} {{", self.t(rng(m.expr.span())));
                for a in &m.arms {
                    let x = self.tail(&a.body)?;
                    o.push_str(&format!(" {} => {{ {} }}", self.t(rng(a.pat.span())), x));
                }
                Some(o + " }")
            }
            _ => {
                let (op, whole) = self.first_try(e)?;
                let q = format!("verif_q{}", self.n);
                let r = rng(e.span());
                let x = format!("{}{}{}", self.t(r.start..whole.start), q, self.t(whole.end..r.end));
                self.wrap(&op, &q, x.clone(), &x)
            }
        }
    }
}
fn flatten(src: &str, sig: &syn::Signature, block: &syn::Block) -> Option<String> {
    let kind = match &sig.output {
        syn::ReturnType::Type(_, t) => match &**t {
            syn::Type::Path(p) => match p.path.segments.last()?.ident.to_string().as_str() {
                "Option" => Some(("Some", "None => None")),
                "Result" => Some(("Ok", "Err(verif_e) => Err(verif_e)")),
                "ControlFlow" => Some(("ControlFlow::Continue", "ControlFlow::Break(verif_e) => ControlFlow::Break(verif_e)")),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    };
    let mut f = Flat { src, kind, n: 0 };
    f.block(block).map(|b| format!("{{ {} }}", b))
}

fn collect_helpers(cx: &mut Ctx, items: &[syn::Item], src: &str) {
    let mut add = |cx: &mut Ctx, key: String, sig: &syn::Signature, block: &syn::Block| {
        if cx.ov.fns.contains_key(&key) {
            return;
        }
        let mut early = Early(false);
        early.visit_block(block);
        let params = sig
            .inputs
            .iter()
            .map(|a| match a {
                syn::FnArg::Receiver(_) => ("self".to_string(), true),
                syn::FnArg::Typed(t) => (src[rng(t.pat.span())].to_string(), false),
            })
            .collect();
        let flat = if early.0 { flatten(src, sig, block) } else { None };
        if flat.is_some() {
            early.0 = false;
        }
        cx.helpers.insert(
            key,
            Helper {
                generics: sig.generics.type_params().map(|t| t.ident.to_string()).collect(),
                params,
                body: flat.unwrap_or_else(|| src[rng(block.span())].to_string()),
                early: early.0,
                ret: matches!(sig.output, syn::ReturnType::Type(..)),
                used: false,
            },
        );
    };
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => add(cx, f.sig.ident.to_string(), &f.sig, &f.block),
            syn::Item::Impl(i) if i.trait_.is_none() => {
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        add(cx, format!("{}::{}", ty_name(&i.self_ty), f.sig.ident), &f.sig, &f.block)
                    }
                }
            }
            _ => {}
        }
    }
}

/// one round of helper inlining over a file; returns the new text if anything changed
fn inline_round(cx: &mut Ctx, src: &str) -> Option<String> {
    let file = syn::parse_file(src).ok()?;
    let mut ed = Edits::default();
    let helpers = cx.helpers.clone();
    let mut used = vec![];
    let mut one = |key: &str, me: &str, block: &syn::Block, ed: &mut Edits| {
        if !cx.ov.fns.contains_key(key) || !cx.verify.contains(key) {
            return;
        }
        let mut c = Calls { src, names: &helpers, me: me.into(), found: vec![], tails: Default::default() };
        c.mark_tail(block);
        c.visit_block(block);
        for (r, h, args, tf, tail) in c.found {
            let hp = &helpers[&h];
            if hp.early && !tail {
                continue;
            }
            if hp.params.len() != args.len() {
                continue;
            }
            let mut pats = vec![];
            let mut vals = vec![];
            for ((p, is_self), a) in hp.params.iter().zip(&args) {
                if !is_self {
                    pats.push(p.clone());
                    vals.push(a.clone());
                }
            }
            let mut body = hp.body.clone();
            if !tf.is_empty() && tf.len() == hp.generics.len() {
                for (g, t) in hp.generics.iter().zip(&tf) {
                    body = replace_word(&body, g, t);
                }
            }
            let lets = pats.iter().zip(&vals).filter(|(p, v)| p != v).collect::<Vec<_>>();
            let l = match lets.len() {
                0 => String::new(),
                1 => format!("let {} = {};", lets[0].0, lets[0].1),
                _ => format!(
                    "let ({}) = ({});",
                    lets.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(", "),
                    lets.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(", ")
                ),
            };
            ed.rep(r, format!("({{ {} {} }})", l, body));
            used.push(h.clone());
        }
    };
    for it in &file.items {
        match it {
            syn::Item::Fn(f) => one(&f.sig.ident.to_string(), "", &f.block, &mut ed),
            syn::Item::Impl(i) => {
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        one(&format!("{}::{}", impl_key(i), f.sig.ident), &ty_name(&i.self_ty), &f.block, &mut ed)
                    }
                }
            }
            syn::Item::Trait(t) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if let Some(b) = &f.default {
                            one(&format!("{}::{}", t.ident, f.sig.ident), "", b, &mut ed)
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if used.is_empty() {
        return None;
    }
    for h in used {
        cx.report.push(format!("inlined\t{}", h));
        cx.helpers.get_mut(&h).unwrap().used = true;
    }
    Some(ed.apply(src))
}

/// what the verifier does not accept, in the functions to be verified: `mut self`, patterns of closure parameters
struct Pre<'s> {
    src: &'s str,
    ed: Edits,
    n: usize,
    /// ghost argument of calls of these methods
    ghost: Vec<String>,
    /// methods and the functions that stand for them
    call: Vec<(String, String)>,
    /// what has to hold where the function may panic on purpose
    panic: Option<String>,
    /// the functions (for 1, 2, .. values) that record what is printed
    print: Option<String>,
}
/// the values that are printed, in the order of the placeholders; None if the format is not understood
fn printed(a: &[syn::Expr], src: &str) -> Option<Vec<Result<usize, String>>> {
    let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. })) = a.first() else { return None };
    let f = f.value();
    let (mut out, mut next) = (vec![], 0);
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        if c == '{' && it.peek() == Some(&'{') || c == '}' && it.peek() == Some(&'}') {
            it.next();
            continue;
        }
        if c != '{' {
            continue;
        }
        let mut spec = String::new();
        loop {
            match it.next()? {
                '}' => break,
                c => spec.push(c),
            }
        }
        if spec.contains('$') || spec.contains('*') {
            return None;
        }
        let name = spec.split(':').next().unwrap_or("").trim().to_string();
        if name.is_empty() {
            next += 1;
            out.push(Ok(next));
        } else if let Ok(i) = name.parse::<usize>() {
            out.push(Ok(i + 1));
        } else {
            let named = a.iter().position(|x| matches!(x, syn::Expr::Assign(y) if src[rng(y.left.span())] == name));
            out.push(named.map(Ok).unwrap_or(Err(name)));
        }
    }
    Some(out)
}
impl<'s> Pre<'s> {
    /// the text of an expression within a macro, with the stand-ins
    fn inner(&self, x: &syn::Expr) -> String {
        let mut sub = Pre { src: self.src, ed: Edits::default(), n: 100, ghost: self.ghost.clone(), call: self.call.clone(), panic: None, print: None };
        sub.visit_expr(x);
        let r = rng(x.span());
        let out = sub.ed.apply(self.src);
        out[r.start..out.len() - (self.src.len() - r.end)].to_string()
    }
    /// diagnostic output is left out, its arguments are evaluated; panic!() is a way to end under a condition
    fn mac(&mut self, m: &syn::Macro, whole: Range<usize>, stmt: bool) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        match n.as_str() {
            "println" | "eprintln" | "print" | "eprint" => {
                let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) else { return };
                if let Some(f) = &self.print {
                    let a: Vec<syn::Expr> = a.into_iter().collect();
                    let vals = printed(&a, self.src);
                    let mut t = vec![];
                    for v in vals.iter().flatten() {
                        match v {
                            Ok(i) if *i < a.len() => {
                                let x = match &a[*i] {
                                    syn::Expr::Assign(y) => &*y.right,
                                    x => x,
                                };
                                t.push(format!("&({})", self.inner(x)));
                            }
                            Ok(_) => {}
                            Err(n) => t.push(format!("&({})", n)),
                        }
                    }
                    let k = if vals.is_none() { "_unknown".to_string() } else { t.len().to_string() };
                    t.push("Tracked(verif_w)".to_string());
                    self.ed.rep(whole, format!("{}{}({}){}", f, k, t.join(", "), if stmt { ";" } else { "" }));
                    return;
                }
                let mut t = String::from("{ ");
                for x in a.iter().skip(1) {
                    let x = match x {
                        syn::Expr::Assign(a) => &*a.right,
                        x => x,
                    };
                    t.push_str(&format!("let _ = &({}); ", &self.src[rng(x.span())]));
                }
                t.push('}');
                self.ed.rep(whole, if stmt { format!("let _ = {};", t) } else { t });
            }
            "panic" => {
                if let Some(p) = &self.panic {
                    self.ed.rep(whole, format!("crate::vspec::verif_stop(Ghost({})){}", p, if stmt { ";" } else { "" }));
                }
            }
            _ => {}
        }
    }
}
impl<'ast, 's> Visit<'ast> for Pre<'s> {
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let mut lets = String::new();
        for i in &c.inputs {
            let p = match i {
                syn::Pat::Type(t) => &*t.pat,
                p => p,
            };
            match p {
                syn::Pat::Wild(w) => {
                    self.n += 1;
                    self.ed.rep(rng(w.span()), format!("verif_p{}", self.n));
                }
                syn::Pat::Ident(d) if d.mutability.is_some() && d.by_ref.is_none() => {
                    self.n += 1;
                    self.ed.rep(rng(d.span()), format!("verif_p{}", self.n));
                    lets.push_str(&format!("let mut {} = verif_p{}; ", d.ident, self.n));
                }
                syn::Pat::Ident(d) if d.by_ref.is_none() && d.subpat.is_none() => {}
                p => {
                    self.n += 1;
                    self.ed.rep(rng(p.span()), format!("verif_p{}", self.n));
                    lets.push_str(&format!("let {} = verif_p{}; ", &self.src[rng(p.span())], self.n));
                }
            }
        }
        if !lets.is_empty() {
            let r = rng(c.body.span());
            self.ed.ins(r.start, format!("{{ {}", lets));
            self.ed.ins(r.end, " }");
        }
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        self.mac(&m.mac, rng(m.span()), true);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.mac(&m.mac, rng(m.span()), false);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        if self.ghost.contains(&e.method.to_string()) {
            let c = if e.args.is_empty() || e.args.trailing_punct() { "" } else { ", " };
            self.ed.ins(rng(e.paren_token.span.close()).start, format!("{}Tracked(verif_w)", c));
        }
        if let Some((_, f)) = self.call.iter().find(|(m, _)| e.method == m) {
            let c = if e.args.is_empty() { "" } else { ", " };
            // &F: F takes the receiver by reference
            let by = if f.starts_with('&') { "&" } else { "" };
            self.ed.ins(rng(e.receiver.span()).start, format!("{}({}", f.trim_start_matches('&'), by));
            self.ed.rep(rng(e.receiver.span()).end..rng(e.paren_token.span.open()).end, c);
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        let name: String = self.src[rng(e.func.span())].split_whitespace().collect();
        if let Some((_, f)) = self.call.iter().find(|(m, _)| m.contains("::") && *m == name) {
            self.ed.rep(rng(e.func.span()), f.clone());
        }
        syn::visit::visit_expr_call(self, e);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}
fn self_tokens(ts: proc_macro2::TokenStream, ed: &mut Edits) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) if i == "self" => ed.rep(rng(i.span()), "self_"),
            proc_macro2::TokenTree::Group(g) => self_tokens(g.stream(), ed),
            _ => {}
        }
    }
}
fn prepass(cx: &Ctx, src: &str) -> String {
    let Ok(file) = syn::parse_file(src) else { return src.to_string() };
    let mut all: Vec<(String, &syn::Signature, &syn::Block)> = vec![];
    for it in &file.items {
        match it {
            syn::Item::Fn(f) => all.push((f.sig.ident.to_string(), &f.sig, &f.block)),
            syn::Item::Impl(i) => {
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        all.push((format!("{}::{}", impl_key(i), f.sig.ident), &f.sig, &f.block))
                    }
                }
            }
            syn::Item::Trait(t) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if let Some(b) = &f.default {
                            all.push((format!("{}::{}", t.ident, f.sig.ident), &f.sig, b))
                        }
                    }
                }
            }
            _ => {}
        }
    }
    // two passes: the second works on the text of the first
    let mut ed = Edits::default();
    let mut again = false;
    for (k, sig, block) in &all {
        if !cx.ov.fns.contains_key(k) {
            continue;
        }
        if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
            if let (None, Some(m)) = (&r.reference, &r.mutability) {
                let m = rng(m.span());
                ed.rep(m, "");
                {
                    let o = rng(block.brace_token.span.open()).end;
                    ed.ins(o, " let mut self_ = self; ");
                    self_tokens(quote::ToTokens::to_token_stream(block), &mut ed);
                }
                again = true;
            }
        }
    }
    if again {
        let t = ed.apply(src);
        return prepass(cx, &t);
    }
    let mut p = Pre { src, ed: Edits::default(), n: 0, ghost: vec![], call: vec![], panic: None, print: None };
    for (k, sig, block) in &all {
        if cx.verify.contains(k) {
            p.n = 0;
            let sec = |n: &str| cx.ov.fns.get(k).and_then(|f| f.sections.get(n)).map(|s| s.trim().to_string());
            p.ghost = sec("ghostcall").map(|s| s.split_whitespace().map(|x| x.to_string()).collect()).unwrap_or_default();
            p.call = sec("call").map(|s| s.split_whitespace().filter_map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect()).unwrap_or_default();
            p.panic = sec("panic");
            p.print = sec("print");
            if let Some(g) = sec("ghost") {
                let c = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " };
                p.ed.ins(rng(sig.paren_token.span.close()).start, format!("{}Tracked(verif_w): Tracked<&mut {}>", c, g));
            }
            p.visit_block(block);
        }
    }
    p.ed.apply(src)
}

/// --norm: another way to write the same, tried when the text as it is was not accepted:
/// Option combinators with a closure become a match, loops over `R.next()` become `for P in R.by_ref()`
struct Norm<'s> {
    src: &'s str,
    /// the function has contracts of closures: `map` outside of them is that of an iterator
    pipeline: bool,
    depth: usize,
    /// names of the function
    names: BTreeSet<String>,
    ed: Option<(Range<usize>, String)>,
}
impl<'s> Norm<'s> {
    fn t(&self, s: proc_macro2::Span) -> String {
        self.src[rng(s)].to_string()
    }
    fn some_pat(&self, p: &syn::Pat) -> Option<String> {
        match p {
            syn::Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => Some(self.t(t.elems[0].span())),
            _ => None,
        }
    }
    fn next_of(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => {
                let mut r = &*m.receiver;
                while let syn::Expr::Field(f) = r {
                    r = &*f.base;
                }
                match r {
                    syn::Expr::Path(_) => Some(self.t(m.receiver.span())),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn is_break(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
            syn::Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                syn::Stmt::Expr(e, _) => Self::is_break(e),
                _ => false,
            },
            _ => false,
        }
    }
    /// a match on R.next(): (R, P, the arm of P)
    fn next_match<'a>(&self, e: &'a syn::Expr) -> Option<(String, String, &'a syn::Expr)> {
        let syn::Expr::Match(m) = e else { return None };
        if m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some()) {
            return None;
        }
        let r = self.next_of(&m.expr)?;
        let i = (0..2).find(|i| Self::is_break(&m.arms[*i].body))?;
        let p = self.some_pat(&m.arms[1 - i].pat)?;
        let other = self.t(m.arms[i].pat.span());
        (other == "None" || other == "_" && i == 1).then(|| (r, p, &*m.arms[1 - i].body))
    }
}
impl<'s> Norm<'s> {
    /// a body that begins with `let Self(a, ..) = self` (or `let Self { a, .. } = self`): the fields by their own names
    fn whole(&self, sig: &syn::Signature, b: &syn::Block) -> Option<(Range<usize>, String)> {
        let syn::FnArg::Receiver(rc) = sig.inputs.first()? else { return None };
        if rc.colon_token.is_some() {
            return None;
        }
        let syn::Stmt::Local(l) = b.stmts.first()? else { return None };
        let init = l.init.as_ref()?;
        if init.diverge.is_some() || self.t(init.expr.span()) != "self" {
            return None;
        }
        let mut parts: Vec<(String, &syn::Pat)> = vec![];
        match &l.pat {
            syn::Pat::TupleStruct(t) => {
                for (i, x) in t.elems.iter().enumerate() {
                    parts.push((i.to_string(), x));
                }
            }
            syn::Pat::Struct(t) => {
                for x in &t.fields {
                    parts.push((match &x.member { syn::Member::Named(n) => n.to_string(), syn::Member::Unnamed(n) => n.index.to_string() }, &x.pat));
                }
            }
            _ => return None,
        }
        let (mut names, mut is_mut) = (BTreeMap::new(), rc.mutability.is_some());
        for (i, (f, x)) in parts.iter().enumerate() {
            match x {
                syn::Pat::Ident(n) if n.by_ref.is_none() && n.subpat.is_none() => {
                    is_mut |= n.mutability.is_some();
                    names.insert(n.ident.to_string(), format!("self.{}", f));
                }
                syn::Pat::Wild(_) => {}
                syn::Pat::Rest(_) if i + 1 == parts.len() => {}
                _ => return None,
            }
        }
        let owned = rc.reference.is_none();
        let mut w = Parts { names: &names, owned, ed: Edits::default(), bad: false };
        for st in &b.stmts[1..] {
            w.visit_stmt(st);
        }
        if w.bad {
            return None;
        }
        let mut ed = w.ed;
        ed.rep(rng(l.span()), "");
        if owned && is_mut && rc.mutability.is_none() {
            ed.ins(rng(rc.self_token.span).start, "mut ");
        }
        // the edits are those of the whole text
        let at = rng(rc.self_token.span).start..rng(b.span()).end;
        let tail = self.src.len() - at.end;
        let all = ed.apply(self.src);
        let t = all[at.start..all.len() - tail].to_string();
        Some((at, t))
    }
    /// a local closure that is only called: its body at the calls
    fn local_closure(&self, b: &syn::Block) -> Option<(Range<usize>, String)> {
        let mut bound = Bound(BTreeMap::new());
        bound.visit_block(b);
        for st in &b.stmts {
            let syn::Stmt::Local(l) = st else { continue };
            let (syn::Pat::Ident(n), Some(init)) = (&l.pat, &l.init) else { continue };
            let syn::Expr::Closure(c) = &*init.expr else { continue };
            if n.by_ref.is_some() || n.subpat.is_some() || init.diverge.is_some() || c.capture.is_some() || c.asyncness.is_some() || c.inputs.is_empty() {
                continue;
            }
            let name = n.ident.to_string();
            let body = self.t(c.body.span());
            let once = |w: &str| bound.0.get(w).map_or(true, |k| *k < 2);
            let words: Vec<&str> = body.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).collect();
            let mut inner = Bound(BTreeMap::new());
            for x in &c.inputs {
                inner.visit_pat(x);
            }
            inner.visit_expr(&c.body);
            if words.contains(&"return") || body.contains('?') || !once(&name) || words.iter().any(|w| !inner.0.contains_key(*w) && !once(w)) {
                continue;
            }
            let mut u = Uses { name: &name, calls: vec![], all: 0, macros: vec![] };
            u.visit_block(b);
            if u.calls.is_empty() || u.calls.len() != u.all || u.calls.iter().any(|x| x.args.len() != c.inputs.len()) || u.macros.iter().any(|m| m.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name)) {
                continue;
            }
            let (mut ps, mut ts) = (String::new(), String::new());
            for x in &c.inputs {
                match x {
                    syn::Pat::Type(t) => {
                        ps += &format!("{}, ", self.t(t.pat.span()));
                        ts += &format!("{}, ", self.t(t.ty.span()));
                    }
                    p => {
                        ps += &format!("{}, ", self.t(p.span()));
                        ts += "_, ";
                    }
                }
            }
            // the innermost call first: its arguments have no call
            let Some(k) = u.calls.iter().find(|k| {
                let mut v = Uses { name: &name, calls: vec![], all: 0, macros: vec![] };
                for a in &k.args {
                    v.visit_expr(a);
                }
                v.all == 0
            }) else { continue };
            let mut args = String::new();
            for a in &k.args {
                args += &format!("{}, ", self.t(a.span()));
            }
            let call = format!("{{ let ({}): ({}) = ({}); {} }}", ps, ts, args, body);
            let mut ed = Edits::default();
            ed.rep(rng(k.span()), format!("({})", call));
            if u.calls.len() == 1 {
                ed.rep(rng(l.span()), "");
            }
            let at = rng(b.span());
            let tail = self.src.len() - at.end;
            let all = ed.apply(self.src);
            let t = all[at.start..all.len() - tail].to_string();
            return Some((at, t));
        }
        None
    }
    /// `R.map(F)` as the value of a function that returns a Result
    fn function(&mut self, sig: &syn::Signature, b: &syn::Block) {
        if self.ed.is_none() {
            self.ed = self.whole(sig, b).or_else(|| self.local_closure(b));
            if self.ed.is_some() {
                return;
            }
        }
        let result = match &sig.output {
            syn::ReturnType::Type(_, t) => match &**t {
                syn::Type::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == "Result"),
                _ => false,
            },
            _ => false,
        };
        self.names.clear();
        for w in self.src[rng(b.span())].split(|c: char| !c.is_alphanumeric() && c != '_') {
            self.names.insert(w.to_string());
        }
        if let (None, true, Some(syn::Stmt::Expr(syn::Expr::MethodCall(m), None))) = (&self.ed, result, b.stmts.last()) {
            if m.method == "map" && m.args.len() == 1 {
                let r = self.t(m.receiver.span());
                match &m.args[0] {
                    syn::Expr::Path(p) => self.ed = Some((rng(m.span()), format!("Ok({}(({})?))", self.t(p.span()), r))),
                    syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                        let t = format!("Ok({{ let {} = ({})?; {} }})", self.t(c.inputs[0].span()), r, self.t(c.body.span()));
                        self.ed = Some((rng(m.span()), t));
                    }
                    _ => {}
                }
            }
        }
        self.visit_block(b);
    }
    fn is_cf(p: &syn::Path, n: &str) -> bool {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        s.last().map_or(false, |l| l == n) && (s.len() == 1 || s[s.len() - 2] == "ControlFlow")
    }
    fn pat_cf<'a>(p: &'a syn::Pat, n: &str) -> Option<&'a syn::Pat> {
        match p {
            syn::Pat::TupleStruct(t) if Self::is_cf(&t.path, n) && t.elems.len() == 1 => Some(&t.elems[0]),
            _ => None,
        }
    }
    fn jumps(f: impl FnOnce(&mut Jumps)) -> bool {
        let mut j = Jumps(false);
        f(&mut j);
        j.0
    }
    /// an arm that leaves a loop: what has to be done behind the loop
    fn leaves(&self, e: &syn::Expr) -> Option<String> {
        let e = match e {
            syn::Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                syn::Stmt::Expr(e, _) => e,
                _ => return None,
            },
            e => e,
        };
        match e {
            syn::Expr::Return(_) => Some(format!("{};", self.t(e.span()))),
            syn::Expr::Break(b) if b.label.is_none() && b.expr.is_none() => Some(String::new()),
            _ => None,
        }
    }
    /// a loop over the values of E that ends at the first Break: `let mut out = E; while out.is_continue() { .. out = E; }`
    fn drain(&self, e: &str, body: &str, after: &str) -> String {
        let v = if self.names.contains("out") { "verif_out" } else { "out" };
        format!("{{ let mut {v} = {e}; while {v}.is_continue() {{ {b} {v} = {e}; }}; {after} }}", v = v, e = e, b = body.replace("verif_out", v), after = after)
    }
    fn pat_of(&self, c: &syn::ExprClosure, i: usize) -> String {
        match &c.inputs[i] {
            syn::Pat::Type(t) => self.t(t.pat.span()),
            p => self.t(p.span()),
        }
    }
}
/// the uses of the names that stand for fields of self
struct Parts<'n> {
    names: &'n BTreeMap<String, String>,
    owned: bool,
    ed: Edits,
    bad: bool,
}
impl<'n> Parts<'n> {
    fn name(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Path(p) if p.qself.is_none() => p.path.get_ident().and_then(|i| self.names.get(&i.to_string()).cloned()),
            _ => None,
        }
    }
}
impl<'ast, 'n> Visit<'ast> for Parts<'n> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Path(_) => {
                if let Some(f) = self.name(e) {
                    // a field of a borrowed self is a reference
                    self.bad |= !self.owned;
                    self.ed.rep(rng(syn::spanned::Spanned::span(e)), f);
                }
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && !self.owned => match self.name(&u.expr) {
                Some(f) => self.ed.rep(rng(syn::spanned::Spanned::span(e)), f),
                None => syn::visit::visit_expr(self, e),
            },
            syn::Expr::MethodCall(m) => {
                match self.name(&m.receiver) {
                    Some(f) => self.ed.rep(rng(syn::spanned::Spanned::span(&*m.receiver)), f),
                    None => self.visit_expr(&m.receiver),
                }
                for a in &m.args {
                    self.visit_expr(a);
                }
            }
            syn::Expr::Call(c) => {
                match self.name(&c.func) {
                    Some(f) => self.ed.rep(rng(syn::spanned::Spanned::span(&*c.func)), format!("({})", f)),
                    None => self.visit_expr(&c.func),
                }
                for a in &c.args {
                    self.visit_expr(a);
                }
            }
            _ => syn::visit::visit_expr(self, e),
        }
    }
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        self.bad |= f.colon_token.is_none();
        syn::visit::visit_field_value(self, f);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.bad |= self.names.contains_key(&p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, _: &'ast syn::Macro) {
        self.bad = true
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {
        self.bad = true
    }
}
/// how often a name is bound
struct Bound(BTreeMap<String, usize>);
impl<'ast> Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        *self.0.entry(p.ident.to_string()).or_insert(0) += 1;
        syn::visit::visit_pat_ident(self, p);
    }
}
struct Uses<'n, 'ast> {
    name: &'n str,
    calls: Vec<&'ast syn::ExprCall>,
    all: usize,
    macros: Vec<String>,
}
impl<'ast, 'n> Visit<'ast> for Uses<'n, 'ast> {
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            if p.path.is_ident(self.name) {
                self.calls.push(e);
            }
        }
        syn::visit::visit_expr_call(self, e);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        self.all += p.path.is_ident(self.name) as usize;
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.macros.push(m.tokens.to_string())
    }
}
struct Jumps(bool);
impl<'ast> Visit<'ast> for Jumps {
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
}
/// does a body leave its own iteration?
struct Leaves(bool);
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
        self.0 = true
    }
    fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
}
impl<'s> Norm<'s> {
    /// a loop over the elements of an array literal: the body once for every element
    fn unrolled(&self, e: &syn::ExprForLoop) -> Option<String> {
        let (list, by_ref) = match &*e.expr {
            syn::Expr::MethodCall(m) if m.args.is_empty() && m.method == "into_iter" => (&*m.receiver, false),
            syn::Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter" => (&*m.receiver, true),
            syn::Expr::Reference(r) if r.mutability.is_none() => (&*r.expr, true),
            x => (x, false),
        };
        let syn::Expr::Array(a) = list else { return None };
        let mut j = Leaves(false);
        j.visit_block(&e.body);
        if j.0 || e.label.is_some() || a.elems.is_empty() || a.elems.len() > 8 || self.src[rng(e.body.span())].contains('\'') {
            return None;
        }
        let (p, b) = (self.t(e.pat.span()), self.t(e.body.span()));
        let mut r = String::from("{ ");
        for (i, x) in a.elems.iter().enumerate() {
            r += &format!("let verif_e{} = {}; ", i, self.t(x.span()));
        }
        for i in 0..a.elems.len() {
            r += &format!("{{ let {} = {}verif_e{}; {} }}; ", p, if by_ref { "&" } else { "" }, i, b);
        }
        Some(r + "}")
    }
}
impl<'ast, 's> Visit<'ast> for Norm<'s> {
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        if self.ed.is_none() {
            if let Some(t) = self.unrolled(e) {
                self.ed = Some((rng(e.span()), t));
                return;
            }
        }
        if let (None, syn::Expr::MethodCall(m)) = (&self.ed, &*e.expr) {
            let to = match m.method.to_string().as_str() {
                "values" => Some((false, ".iter()")),
                "values_mut" => Some((false, ".iter_mut()")),
                "keys" => Some((true, ".iter()")),
                "into_values" => Some((false, "")),
                "into_keys" => Some((true, "")),
                _ => None,
            };
            if let (Some((key, it)), true) = (to, m.args.is_empty()) {
                let p = self.t(e.pat.span());
                let p = if key { format!("({}, _)", p) } else { format!("(_, {})", p) };
                let at = rng(e.pat.span()).start..rng(e.expr.span()).end;
                self.ed = Some((at, format!("{} in {}{} ", p, self.t(m.receiver.span()), it)));
                return;
            }
        }
        self.visit_block(&e.body);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        if self.ed.is_none() {
            if let syn::Expr::Let(l) = &*e.cond {
                if let (Some(p), Some(r)) = (self.some_pat(&l.pat), self.next_of(&l.expr)) {
                    let at = rng(e.while_token.span()).start..rng(l.span()).end;
                    self.ed = Some((at, format!("for {} in {}.by_ref()", p, r)));
                    return;
                }
                if let (Some(_), false) = (Self::pat_cf(&l.pat, "Continue"), Self::jumps(|j| j.visit_block(&e.body))) {
                    let b = format!("if let {} = verif_out {}", self.t(l.pat.span()), self.t(e.body.span()));
                    if matches!(Self::pat_cf(&l.pat, "Continue"), Some(syn::Pat::Ident(_))) {
                        self.ed = Some((rng(e.span()), self.drain(&self.t(l.expr.span()), &b, "")));
                        return;
                    }
                }
            }
        }
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        if self.ed.is_none() {
            let st = &e.body.stmts;
            let start = rng(e.loop_token.span()).start;
            if st.len() == 1 {
                if let syn::Stmt::Expr(x, _) = &st[0] {
                    if let syn::Expr::Match(m) = x {
                        // every arm goes on or ends the loop
                        let brk: Vec<&syn::Arm> = m.arms.iter().filter(|a| Self::pat_cf(&a.pat, "Break").is_some()).collect();
                        let go: Vec<&syn::Arm> = m.arms.iter().filter(|a| Self::pat_cf(&a.pat, "Continue").is_some()).collect();
                        if brk.len() == 1 && brk.len() + go.len() == m.arms.len() && m.arms.iter().all(|a| a.guard.is_none()) {
                            if let Some(after) = self.leaves(&brk[0].body) {
                                let mut arms = String::new();
                                let mut ok = true;
                                for a in &go {
                                    let b = match &*a.body {
                                        syn::Expr::Continue(c) if c.label.is_none() => "{}".to_string(),
                                        x => {
                                            ok &= !Self::jumps(|j| j.visit_expr(x)) && !Self::is_break(x);
                                            self.t(x.span())
                                        }
                                    };
                                    arms.push_str(&format!("{} => {{ {}; }} ", self.t(a.pat.span()), b));
                                }
                                if ok {
                                    let b = format!("match verif_out {{ {} {} => {{}} }}", arms, self.t(brk[0].pat.span()));
                                    self.ed = Some((rng(e.span()), self.drain(&self.t(m.expr.span()), &b, &after)));
                                    return;
                                }
                            }
                        }
                    }
                    if let Some((r, p, b)) = self.next_match(x) {
                        let b = self.t(b.span());
                        self.ed = Some((start..rng(e.span()).end, format!("for {} in {}.by_ref() {{ {} }}", p, r, b)));
                        return;
                    }
                }
            }
            if let Some(syn::Stmt::Local(l)) = st.first() {
                let rest = self.src[rng(l.span()).end..rng(e.span()).end].to_string();
                if let Some(i) = &l.init {
                    if let (Some((_, d)), Some(_)) = (&i.diverge, Self::pat_cf(&l.pat, "Continue")) {
                        if let (Some(after), false) = (self.leaves(d), Self::jumps(|j| st[1..].iter().for_each(|s| j.visit_stmt(s)))) {
                            let b = format!("if let {} = verif_out {{ {}", self.t(l.pat.span()), rest);
                            if matches!(Self::pat_cf(&l.pat, "Continue"), Some(syn::Pat::Ident(_))) {
                                self.ed = Some((rng(e.span()), self.drain(&self.t(i.expr.span()), &b, &after)));
                                return;
                            }
                        }
                    }
                    if let Some((_, d)) = &i.diverge {
                        if let (Some(p), Some(r), true) = (self.some_pat(&l.pat), self.next_of(&i.expr), Self::is_break(d)) {
                            self.ed = Some((start..rng(e.span()).end, format!("for {} in {}.by_ref() {{ {}", p, r, rest)));
                            return;
                        }
                    } else if let Some((r, p, b)) = self.next_match(&i.expr) {
                        if self.t(b.span()) == p {
                            let q = self.t(l.pat.span());
                            self.ed = Some((start..rng(e.span()).end, format!("for {} in {}.by_ref() {{ {}", q, r, rest)));
                            return;
                        }
                    }
                }
            }
        }
        syn::visit::visit_expr_loop(self, e);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        syn::visit::visit_local(self, l);
        // a loop that computes the value of a variable works on that variable
        let name = match &l.pat {
            syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => i.ident.to_string(),
            syn::Pat::Type(t) => match &*t.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                _ => return,
            },
            _ => return,
        };
        if let (Some((r, t)), Some(i)) = (&self.ed, &l.init) {
            if *r == rng(i.expr.span()) {
                for v in ["verif_f", "verif_c"] {
                    if let Some(x) = t.strip_prefix(&format!("{{ let mut {} = ", v)).and_then(|x| x.strip_suffix(&format!(" {} }}", v))) {
                        let ty = match &l.pat {
                            syn::Pat::Type(t) => format!(": {}", self.t(t.ty.span())),
                            _ => String::new(),
                        };
                        self.ed = Some((rng(l.span()), format!("let mut {}{} = {}", name, ty, replace_word(x, v, &name))));
                        return;
                    }
                }
            }
        }
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        if self.ed.is_none() {
            let m = e.method.to_string();
            if let (true, false, syn::Expr::MethodCall(i)) = (m == "collect", self.pipeline, &*e.receiver) {
                // the entries of a map or the elements of a vector, one by one
                if let (true, Some(syn::Expr::Closure(c)), 1) = (i.method == "map", i.args.first(), i.args.len()) {
                    if c.inputs.len() == 1 && !has_early(|v| v.visit_expr(&c.body)) {
                        let put = match &*c.body {
                            syn::Expr::Tuple(t) if t.elems.len() == 2 => ("BTreeMap", format!("verif_c.insert({}, {})", self.t(t.elems[0].span()), self.t(t.elems[1].span()))),
                            x => ("Vec", format!("verif_c.push({})", self.t(x.span()))),
                        };
                        let t = format!("{{ let mut verif_c = {}::new(); for {} in {} {{ {}; }} verif_c }}", put.0, self.pat_of(c, 0), self.t(i.receiver.span()), put.1);
                        self.ed = Some((rng(e.span()), t));
                        return;
                    }
                }
            }
            if let Some(syn::Expr::Closure(c)) = e.args.last() {
                let mut early = Early(false);
                early.visit_expr(&c.body);
                let pats: Vec<String> = c
                    .inputs
                    .iter()
                    .map(|p| match p {
                        syn::Pat::Type(t) => self.t(t.pat.span()),
                        p => self.t(p.span()),
                    })
                    .collect();
                let r = self.t(e.receiver.span());
                let b = self.t(c.body.span());
                let arms = match (m.as_str(), e.args.len(), pats.len()) {
                    ("map", 1, 1) if self.pipeline && self.depth == 0 => None,
                    ("map", 1, 1) => Some(format!("Some({}) => Some({}), None => None", pats[0], b)),
                    ("and_then", 1, 1) => Some(format!("Some({}) => {}, None => None", pats[0], b)),
                    ("is_some_and", 1, 1) => Some(format!("Some({}) => {}, None => false", pats[0], b)),
                    ("map_or", 2, 1) => Some(format!("Some({}) => {}, None => {}", pats[0], b, self.t(e.args[0].span()))),
                    ("unwrap_or_else", 1, 0) => Some(format!("Some(verif_v) => verif_v, None => {}", b)),
                    ("or_else", 1, 0) => Some(format!("Some(verif_v) => Some(verif_v), None => {}", b)),
                    _ => None,
                };
                if let (false, false, 1) = (self.pipeline, early.0, pats.len()) {
                    let loop_ = match m.as_str() {
                        "find_map" => Some(format!("{{ let mut verif_f = None; for {} in {} {{ let verif_v = {}; if verif_v.is_some() {{ verif_f = verif_v; break; }} }} verif_f }}", pats[0], r, b)),
                        "for_each" => Some(format!("for {} in {} {{ {}; }}", pats[0], r, b)),
                        "any" => Some(format!("{{ let mut verif_f = false; for {} in {} {{ if {} {{ verif_f = true; break; }} }} verif_f }}", pats[0], r, b)),
                        "all" => Some(format!("{{ let mut verif_f = true; for {} in {} {{ if !({}) {{ verif_f = false; break; }} }} verif_f }}", pats[0], r, b)),
                        _ => None,
                    };
                    if let Some(t) = loop_ {
                        self.ed = Some((rng(e.span()), t));
                        return;
                    }
                }
                if let ("fold", 2, 2, false, false) = (m.as_str(), e.args.len(), pats.len(), self.pipeline, early.0 || r == "self") {
                    let t = format!("{{ let mut verif_c = {}; for {} in {} {{ verif_c = {{ let {} = verif_c; {} }}; }} verif_c }}", self.t(e.args[0].span()), pats[1], r, pats[0], b);
                    self.ed = Some((rng(e.span()), t));
                    return;
                }
                if let (Some(a), false) = (arms, early.0) {
                    self.ed = Some((rng(e.span()), format!("(match {} {{ {} }})", r, a)));
                    return;
                }
            }
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        self.depth += 1;
        syn::visit::visit_expr_closure(self, e);
        self.depth -= 1;
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}
fn norm(cx: &mut Ctx, src: &str) -> String {
    let mut src = src.to_string();
    for _ in 0..40 {
        let Ok(file) = syn::parse_file(&src) else { return src };
        let mut n = Norm { src: &src, pipeline: false, depth: 0, names: BTreeSet::new(), ed: None };
        for it in &file.items {
            match it {
                syn::Item::Fn(f) if cx.verify.contains(&f.sig.ident.to_string()) => {
                    n.pipeline = cx.ov.fns.get(&f.sig.ident.to_string()).map_or(false, |o| o.sections.contains_key("closure1"));
                    n.function(&f.sig, &f.block);
                    n.pipeline = false;
                }
                syn::Item::Impl(i) => {
                    for x in &i.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if cx.verify.contains(&format!("{}::{}", impl_key(i), f.sig.ident)) {
                                n.function(&f.sig, &f.block)
                            }
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            if let (Some(b), true) = (&f.default, cx.verify.contains(&format!("{}::{}", t.ident, f.sig.ident))) {
                                n.function(&f.sig, b)
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let Some((r, t)) = n.ed else { break };
        cx.report.push(format!("norm\t{}", t.replace(['\n', '\t'], " ")));
        src.replace_range(r, &t);
    }
    src
}

/// `return E` and the tail expression of a function body
struct Rets {
    list: Vec<(Range<usize>, Option<Range<usize>>)>,
}
impl<'ast> Visit<'ast> for Rets {
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        self.list.push((rng(e.span()), e.expr.as_ref().map(|x| rng(x.span()))));
        syn::visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}
struct Closures<'ast>(Vec<&'ast syn::ExprClosure>);
impl<'ast> Visit<'ast> for Closures<'ast> {
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        self.0.push(e);
        syn::visit::visit_expr_closure(self, e);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

fn replace_word(s: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let f: Vec<char> = from.chars().collect();
    let isw = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(&f)
            && (i == 0 || (!isw(b[i - 1]) && b[i - 1] != '\''))
            && (i + f.len() == b.len() || !isw(b[i + f.len()]))
        {
            out.push_str(to);
            i += f.len();
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn subst(cx: &Ctx, key: &str, ov: &FnOv, params: &[String], it: &str, text: &str) -> String {
    // $1 $2 .. parameters, $it the iterator of a desugared for loop, $name binds
    let mut t = text.to_string();
    for (n, p) in params.iter().enumerate().rev() {
        t = t.replace(&format!("${}", n + 1), p);
    }
    t = t.replace("$it", it);
    let mut names: Vec<&String> = ov.binds.keys().collect();
    names.sort_by_key(|n| std::cmp::Reverse(n.len()));
    for n in names {
        let v = cx.binds.get(&(key.to_string(), n.clone())).unwrap_or(&ov.binds[n]);
        t = t.replace(&format!("${}", n), v);
    }
    t
}

trait OutputHasImpl {
    fn output_has_impl(&self) -> bool;
}
impl OutputHasImpl for syn::Signature {
    fn output_has_impl(&self) -> bool {
        struct V(bool);
        impl<'a> Visit<'a> for V {
            fn visit_type_impl_trait(&mut self, _: &'a syn::TypeImplTrait) {
                self.0 = true;
            }
        }
        let mut v = V(false);
        v.visit_return_type(&self.output);
        v.0
    }
}

fn do_fn(cx: &mut Ctx, ed: &mut Edits, src: &str, key: &str, attrs_at: usize, sig: &syn::Signature, block: Option<&syn::Block>, semi: Option<usize>, in_trait_impl: bool) {
    let Some(ov) = cx.ov.fns.get(key).cloned() else {
        cx.report.push(format!("nocontract\t{}", key));
        if !in_trait_impl {
            ed.ins(attrs_at, "#[verifier::external]\n");
        } else {
            ed.ins(attrs_at, "#[verifier::external_body]\n");
        }
        return;
    };
    cx.seen.insert(key.to_string());
    let params: Vec<String> = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Receiver(_) => None,
            syn::FnArg::Typed(t) => Some(match &*t.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                _ => src[rng(t.pat.span())].to_string(),
            }),
        })
        .collect();
    let selfname = match block {
        Some(b) if src[rng(b.span())].trim_start_matches(['{', ' ']).starts_with("let mut self_ = self;") => "self_",
        _ => "self",
    };
    let mut ov = ov;
    for (n, t) in ov.sections.iter_mut() {
        *t = t.replace("$self", if n == "spec" { "self" } else { selfname });
    }
    let ov = ov;
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let r = rng(t.span());
        ed.ins(r.start, format!("({}: ", ov.ret));
        ed.ins(r.end, ")");
    }
    let standin = if cx.verify.contains(key) { None } else { ov.sections.get("result") };
    if let (Some(t), syn::ReturnType::Type(_, ty)) = (standin, &sig.output) {
        let r = rng(ty.span());
        ed.rep(r, t.trim());
        if let Some(b) = block {
            ed.rep(rng(b.span()), "{ unimplemented!() }");
        }
        cx.report.push(format!("result\t{}\t{}", key, t.trim()));
    }
    let spec = ov.sections.get(if standin.is_some() { "resultspec" } else { "spec" }).cloned().unwrap_or_default();
    let spec = subst(cx, key, &ov, &params, "", &spec);
    let at = match (block, semi) {
        (Some(b), _) => rng(b.brace_token.span.open()).start,
        (None, Some(s)) => s,
        _ => unreachable!(),
    };
    if !spec.trim().is_empty() {
        // a where clause without trailing comma
        let needs = match &sig.generics.where_clause {
            Some(w) => !w.predicates.trailing_punct() && !w.predicates.is_empty(),
            None => false,
        };
        ed.ins(at, format!("{}\n{}\n", if needs { "," } else { "" }, spec));
    }
    let Some(block) = block else {
        cx.report.push(format!("decl\t{}", key));
        return;
    };
    let verify = cx.verify.contains(key) && !ov.external;
    let attr = ov.sections.get("attr").cloned().unwrap_or_default();
    if !verify {
        ed.ins(attrs_at, format!("#[verifier::external_body]\n"));
        // the body is not looked at: it need not be in the verifier's reach
        if standin.is_none() && !sig.output_has_impl() {
            ed.rep(rng(block.span()), "{ unimplemented!() }");
        }
        cx.report.push(format!("assumed\t{}", key));
        return;
    }
    let isolate = if attr.contains("loop_isolation") { "" } else { "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n" };
    ed.ins(attrs_at, format!("{}{}", isolate, attr));
    let mut lv = LV { src, l: Loops { list: vec![], locals: vec![], depth: 0 } };
    lv.visit_block(block);
    cx.report.push(format!(
        "verify\t{}\tloops={}\tlocals={}",
        key,
        lv.l.list.len(),
        lv.l.locals.join(",")
    ));
    let open = rng(block.brace_token.span.open()).end;
    if let Some(e) = ov.sections.get("entry") {
        ed.ins(open, format!("\n{}\n", subst(cx, key, &ov, &params, "", e)));
    }
    if cx.falsify {
        // vacuity guard: this must not be provable, or the preconditions contradict
        ed.ins(open, "\nproof { assert(false); }\n");
    }
    annotate_loops(cx, key, &ov, &params, src, ed, &lv.l.list, "", &[]);
    let mut cl = Closures(vec![]);
    cl.visit_block(block);
    let annotated = (1..100).filter(|n| ov.sections.contains_key(&format!("closure{}", n))).max().unwrap_or(0);
    if annotated != 0 && annotated != cl.0.len() && !(cx.norm && cl.0.is_empty()) {
        // the contracts of closures are attached by number
        die(&format!("{} has {} closures, the contracts are for {}", key, cl.0.len(), annotated));
    }
    for (n, c) in cl.0.iter().enumerate() {
        if let Some(t) = ov.sections.get(&format!("closure{}", n + 1)) {
            let st = ov.sections.get(&format!("closurestart{}", n + 1)).cloned().unwrap_or_default();
            let en = ov.sections.get(&format!("closureend{}", n + 1)).cloned().unwrap_or_default();
            let (mut t, mut st) = (t.clone(), st);
            let mut names = vec![];
            for (n, i) in c.inputs.iter().enumerate() {
                let p = match i {
                    syn::Pat::Type(t) => &*t.pat,
                    p => p,
                };
                let name = &match p {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    p => src[rng(p.span())].to_string(),
                };
                names.push(name.clone());
                t = t.replace(&format!("$a{}", n + 1), name);
                st = st.replace(&format!("$a{}", n + 1), name);
            }
            for (n, p) in params.iter().enumerate().rev() {
                t = t.replace(&format!("${}", n + 1), p);
                st = st.replace(&format!("${}", n + 1), p);
            }
            let mut lv = LV { src, l: Loops { list: vec![], locals: vec![], depth: 0 } };
            lv.visit_expr(&c.body);
            // a parameter that the pre-pass took out of its pattern (|mut a|): the loops name the local variable
            for n in names.iter_mut() {
                if let syn::Expr::Block(b) = &*c.body {
                    for st in &b.block.stmts {
                        if let syn::Stmt::Local(l) = st {
                            if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                                if n.starts_with("verif_p") && src[rng(init.expr.span())] == *n {
                                    *n = i.ident.to_string();
                                }
                            }
                        }
                    }
                }
            }
            annotate_loops(cx, key, &ov, &params, src, ed, &lv.l.list, &format!("closure{}", n + 1), &names);
            let r = rng(c.body.span());
            if en.is_empty() {
                ed.ins(r.start, format!("{} {{ {}", t, st));
                ed.ins(r.end, " }");
            } else {
                ed.ins(r.start, format!("{} {{ {} let verif_r = {{", t, st));
                ed.ins(r.end, format!(" }}; {} verif_r }}", en));
            }
        }
    }
    if let Some(e) = ov.sections.get("exit") {
        let e = subst(cx, key, &ov, &params, "", e).replace("$ret", "verif_ret");
        let mut rs = Rets { list: vec![] };
        rs.visit_block(block);
        for (whole, x) in &rs.list {
            match x {
                Some(x) => {
                    ed.ins(whole.start, "{ let verif_ret = ");
                    ed.rep(whole.start..x.start, "");
                    ed.ins(whole.end, format!(";\n{}\nreturn verif_ret; }}", e));
                }
                None => {
                    ed.ins(whole.start, format!("{{\n{}\n", e));
                    ed.ins(whole.end, " }");
                }
            }
        }
        let unit = matches!(sig.output, syn::ReturnType::Default);
        let close = rng(block.brace_token.span.close()).start;
        match block.stmts.last() {
            Some(syn::Stmt::Expr(x, None)) if !unit && !matches!(x, syn::Expr::Return(_)) => {
                ed.ins(rng(x.span()).start, "let verif_ret = ");
                ed.ins(close, format!(";\n{}\nverif_ret\n", e));
            }
            Some(syn::Stmt::Expr(_, None)) if unit => ed.ins(close, format!(";\n{}\n", e)),
            Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) => {}
            _ if unit => ed.ins(close, format!("\n{}\n", e)),
            _ => {}
        }
    }
}

/// is the word in the text
fn has_word(text: &str, w: &str) -> bool {
    text.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w)
}
/// which sections are about this loop: the n-th, or as `@loopof` says (N=NAME: those numbered N are for the loop over an expression,
/// or a local that is defined by one, that has NAME in it)
fn loop_number(ov: &FnOv, prefix: &str, src: &str, l: &LoopInfo, n: usize) -> usize {
    let Some(t) = ov.sections.get(&format!("{}loopof", prefix)) else { return n };
    let LoopKind::For { whole, expr, .. } = &l.kind else { return 0 };
    let mut text = src[rng(expr.span())].to_string();
    if let syn::Expr::Path(p) = expr {
        if let Some(i) = p.path.get_ident() {
            let head = format!("let {}", i);
            let at = src[..whole.start].rmatch_indices(&head).map(|(k, _)| k).find(|k| {
                src[k + head.len()..].starts_with(|c: char| !(c.is_alphanumeric() || c == '_'))
            });
            if let Some(k) = at {
                text = src[k..].split(';').next().unwrap_or("").to_string();
            }
        }
    }
    for x in t.lines() {
        if let Some((k, w)) = x.trim().split_once('=') {
            if has_word(&text, w.trim()) {
                return k.trim().parse().unwrap_or(0);
            }
        }
    }
    0
}

/// the loops of a body with the contracts of the sections PREFIXloop, PREFIXloopN ..
fn annotate_loops(cx: &Ctx, key: &str, ov: &FnOv, params: &[String], src: &str, ed: &mut Edits, list: &[LoopInfo], prefix: &str, names: &[String]) {
    let subst = |cx: &Ctx, key: &str, ov: &FnOv, params: &[String], it: &str, t: &str| -> String {
        let mut t = t.to_string();
        for (n, p) in names.iter().enumerate() {
            t = t.replace(&format!("$a{}", n + 1), p);
        }
        subst(cx, key, ov, params, it, &t)
    };
    let mut nfor = 0;
    for (n, l) in list.iter().enumerate() {
        // @loop for every loop, @loop1, @loop2 .. for the n-th (or, with @loopof, for the one over what N=NAME says)
        let num = loop_number(ov, prefix, src, l, n + 1);
        let name = |s: &str| -> String {
            let a = ov.sections.get(&format!("{}{}{}", prefix, s, num));
            a.or(ov.sections.get(&format!("{}{}", prefix, s))).cloned().unwrap_or_default()
        };
        let mut it = format!("verif_it{}", nfor + 1);
        let mut header = String::new();
        let mut arm = String::new();
        let mut label_text = String::new();
        if let LoopKind::For { label, pat, expr, .. } = &l.kind {
            nfor += 1;
            let mut e = expr.clone();
            let mut mapped: Option<(String, String)> = None;
            if let syn::Expr::MethodCall(m) = &e {
                if m.method == "map" && m.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            mapped = Some((
                                src[rng(c.inputs[0].span())].to_string(),
                                src[rng(c.body.span())].to_string(),
                            ));
                            e = (*m.receiver).clone();
                        }
                    }
                }
            }
            let mut byref = false;
            if let syn::Expr::MethodCall(m) = &e {
                if m.method == "by_ref" {
                    byref = true;
                    e = (*m.receiver).clone();
                }
            }
            let etext = src[rng(e.span())].to_string();
            if byref {
                it = format!("({})", etext);
            } else if matches!(e, syn::Expr::Path(_)) && mapped.is_some() {
                header.push_str(&format!("let mut {} = {};\n", it, etext));
            } else if mapped.is_some() {
                header.push_str(&format!("let mut {} = {};\n", it, etext));
            } else if let syn::Expr::Reference(r) = &e {
                if r.mutability.is_some() {
                    it = format!("({})", src[rng(r.expr.span())].to_string());
                } else {
                    header.push_str(&format!("let mut {} = ({}).iter();\n", it, src[rng(r.expr.span())].to_string()));
                }
            } else {
                // the function of @loopinto calls into_iter
                let mut etext = etext.clone();
                let mut e = e.clone();
                if let (false, syn::Expr::MethodCall(m)) = (name("loopinto").trim().is_empty(), e.clone()) {
                    if m.method == "into_iter" && m.args.is_empty() {
                        etext = src[rng(m.receiver.span())].to_string();
                        e = (*m.receiver).clone();
                    }
                }
                let is_iter = matches!(&e, syn::Expr::MethodCall(m) if m.method == "iter" || m.method == "into_iter" || m.method == "find_iter");
                match name("loopinto").trim() {
                    // a function of the overlay (verified there) that calls into_iter
                    f if !f.is_empty() && !is_iter => header.push_str(&format!("let mut {} = {}({});\n", it, f, etext)),
                    _ => header.push_str(&format!("let mut {} = {}{};\n", it, etext, if is_iter { "" } else { ".into_iter()" })),
                }
            }
            let lab = label.clone().map(|l| format!("{} ", l)).unwrap_or_default();
            match mapped {
                Some((p, x)) => {
                    arm = format!("match ({}).next() {{ None => break, Some({}) => {{ let {} = {};", it, p, pat, x)
                }
                None => arm = format!("match ({}).next() {{ None => break, Some({}) => {{", it, pat),
            }
            label_text = lab;
        }
        let inv = subst(cx, key, ov, params, &it, &name("loop"));
        let pre = subst(cx, key, ov, params, &it, &name("loopstart"));
        let fin = subst(cx, key, ov, params, &it, &name("loopend"));
        let before = subst(cx, key, ov, params, &it, &name("loopbefore"));
        match &l.kind {
            LoopKind::For { whole, .. } => {
                ed.rep(
                    whole.start..l.open + 1,
                    format!("{{ {header}{before}\n{label_text}loop\n{inv}\n{{\n{pre}\n{arm}"),
                );
                ed.ins(l.close, format!("\n{}\n}} }}\n", fin));
                ed.ins(l.close + 1, "}");
            }
            _ => {
                let _ = &before;
                ed.ins(l.open, format!("\n{}\n", inv));
                ed.ins(l.open + 1, format!("\n{}\n", pre));
                ed.ins(l.close, format!("\n{}\n", fin));
            }
        }
        let _ = l.depth;
    }
}

fn pub_fields(ed: &mut Edits, f: &syn::Fields, private: bool) {
    for x in f.iter() {
        if private {
            // contracts on private state (type invariants) need private fields
            if !matches!(x.vis, syn::Visibility::Inherited) {
                ed.rep(rng(x.vis.span()), "");
            }
            continue;
        }
        if matches!(x.vis, syn::Visibility::Inherited) {
            let at = match &x.ident {
                Some(i) => rng(i.span()).start,
                None => rng(x.ty.span()).start,
            };
            ed.ins(at, "pub ");
        }
    }
}

fn derives(cx: &Ctx, ed: &mut Edits, name: &str, attrs: &[syn::Attribute]) {
    let drop = cx.ov.structs.get(name).map(|x| x.0.clone()).unwrap_or_default();
    for a in attrs {
        if a.path().is_ident("derive") {
            let mut keep = vec![];
            let _ = a.parse_nested_meta(|m| {
                let id = m.path.segments.last().unwrap().ident.to_string();
                if ["Clone", "Copy", "PartialEq", "Eq"].contains(&id.as_str()) && !drop.contains(&id) {
                    keep.push(id);
                }
                Ok(())
            });
            let t = if keep.is_empty() { String::new() } else { format!("#[derive({})]", keep.join(", ")) };
            ed.rep(rng(a.span()), t);
        }
    }
}

fn make_pub(ed: &mut Edits, v: &syn::Visibility, at: usize) {
    if matches!(v, syn::Visibility::Inherited) {
        ed.ins(at, "pub ");
    }
}

fn parse_module(cx: &mut Ctx, file: &Path, modpath: &str, moddir: &Path) -> Vec<(PathBuf, String, PathBuf)> {
    let src = std::fs::read_to_string(file).unwrap_or_else(|e| die(&format!("{}: {}", file.display(), e)));
    let f = syn::parse_file(&src).unwrap_or_else(|e| die(&format!("{}: {}", file.display(), e)));
    let mut kids = vec![];
    for it in &f.items {
        if let syn::Item::Mod(m) = it {
            if m.content.is_none() && !is_test(&m.attrs) {
                let n = m.ident.to_string();
                let mp = if modpath.is_empty() { n.clone() } else { format!("{}::{}", modpath, n) };
                let a = moddir.join(format!("{}.rs", n));
                let b = moddir.join(&n).join("mod.rs");
                let p = if a.exists() { a } else { b };
                kids.push((p, mp, moddir.join(&n)));
            }
        }
    }
    let _ = cx;
    kids
}

fn die(m: &str) -> ! {
    eprintln!("extract: {}", m);
    std::process::exit(3)
}

fn kept(cx: &Ctx, modpath: &str) -> bool {
    match &cx.keep {
        None => true,
        Some(k) => k.contains(modpath) || k.iter().any(|x| x.starts_with(&format!("{}::", modpath))),
    }
}

fn load_helpers(cx: &mut Ctx, file: &Path, modpath: &str, moddir: &Path) {
    if !modpath.is_empty() && !kept(cx, modpath) {
        return;
    }
    let src = read_src(cx, file, modpath);
    if let Ok(f) = syn::parse_file(&src) {
        collect_helpers(cx, &f.items, &src);
    }
    for (p, mp, d) in parse_module(cx, file, modpath, moddir) {
        if p.exists() {
            load_helpers(cx, &p, &mp, &d);
        }
    }
}

/// the text of a file; in a crate that became a module of the unit the paths are adapted
fn read_src(cx: &Ctx, file: &Path, modpath: &str) -> String {
    let mut src = std::fs::read_to_string(file).unwrap_or_else(|e| die(&format!("{}: {}", file.display(), e)));
    let top = modpath.split("::").next().unwrap_or("");
    if cx.also.iter().any(|a| a == top) {
        let main = &cx.main_crate;
        src = src.replace("crate::", &format!("crate::{}::", top));
        src = replace_word(&src, main, "crate");
    }
    while let Some(t) = lifted(cx, &src) {
        src = t;
    }
    src
}

/// a function defined in the body of a function under contract becomes one of the module
fn lifted(cx: &Ctx, src: &str) -> Option<String> {
    let file = syn::parse_file(src).ok()?;
    for (key, _, b) in functions(&file) {
        if !cx.verify.contains(&key) {
            continue;
        }
        for st in &b.stmts {
            let syn::Stmt::Item(syn::Item::Fn(f)) = st else { continue };
            let r = rng(f.span());
            let t = &src[r.clone()];
            if src.matches(&format!("fn {}", f.sig.ident)).count() == 1 && !t.contains("Self") {
                return Some(format!("{}{}\n{}\n", &src[..r.start], &src[r.end..], t));
            }
        }
    }
    None
}

/// the functions of a file that have a body
fn functions(file: &syn::File) -> Vec<(String, &syn::Signature, &syn::Block)> {
    let mut v = vec![];
    for it in &file.items {
        match it {
            syn::Item::Fn(f) => v.push((f.sig.ident.to_string(), &f.sig, &*f.block)),
            syn::Item::Impl(i) => {
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        v.push((format!("{}::{}", impl_key(i), f.sig.ident), &f.sig, &f.block))
                    }
                }
            }
            syn::Item::Trait(t) => {
                for x in &t.items {
                    if let (syn::TraitItem::Fn(f), n) = (x, &t.ident) {
                        if let Some(b) = &f.default {
                            v.push((format!("{}::{}", n, f.sig.ident), &f.sig, b))
                        }
                    }
                }
            }
            _ => {}
        }
    }
    v
}

/// a ghost variable of the contracts must not have the name of a variable of the code
fn rename_ghosts(cx: &mut Ctx, src: &str) {
    let Ok(file) = syn::parse_file(src) else { return };
    for (key, _, b) in functions(&file) {
        if !cx.verify.contains(&key) {
            continue;
        }
        let Some(ov) = cx.ov.fns.get_mut(&key) else { continue };
        let mut bound = Bound(BTreeMap::new());
        bound.visit_block(b);
        let mut ghosts = BTreeSet::new();
        for t in ov.sections.values() {
            for l in t.split("let ghost ").skip(1) {
                let l = l.trim_start().trim_start_matches("mut ").trim_start();
                let n: String = l.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if bound.0.contains_key(&n) {
                    ghosts.insert(n);
                }
            }
        }
        for g in &ghosts {
            for t in ov.sections.values_mut() {
                *t = replace_word(t, g, &format!("verif_g_{}", g));
            }
        }
    }
}

fn emit(cx: &mut Ctx, file: &Path, modpath: &str, moddir: &Path) {
    let kids = parse_module(cx, file, modpath, moddir);
    let mut src = read_src(cx, file, modpath);
    let full = match &cx.keep {
        None => true,
        Some(k) => k.contains(modpath) || modpath.is_empty() && k.contains("crate"),
    };
    for _ in 0..6 {
        match inline_round(cx, &src) {
            Some(s) => src = s,
            None => break,
        }
    }
    if cx.norm {
        src = norm(cx, &src);
    }
    rename_ghosts(cx, &src);
    src = prepass(cx, &src);
    let f = syn::parse_file(&src).unwrap_or_else(|e| die(&format!("{} after inlining: {}", file.display(), e)));
    let mut ed = Edits::default();
    let only = cx.ov.only.get(modpath).cloned();
    for it in &f.items {
        let r = rng(it.span());
        if let Some(o) = &only {
            let n = match it {
                syn::Item::Struct(x) => Some(x.ident.to_string()),
                syn::Item::Enum(x) => Some(x.ident.to_string()),
                syn::Item::Type(x) => Some(x.ident.to_string()),
                syn::Item::Const(x) => Some(x.ident.to_string()),
                syn::Item::Use(_) => Some("-use".into()),
                _ => None,
            };
            if let Some(n) = n {
                if o.contains(&n) == (n == "-use") {
                    if n != "-use" {
                        cx.report.push(format!("dropped\t{}", n));
                    }
                    ed.rep(r, "");
                    continue;
                }
            }
        }
        match it {
            syn::Item::Mod(m) => {
                let _ = m;
                ed.rep(r, "");
            }
            _ if !full && !matches!(it, syn::Item::Use(_)) => ed.rep(r, ""),
            syn::Item::Use(_) if !full => ed.rep(r, ""),
            syn::Item::Use(_) => {
                let u = use_filter(cx, &src[r.clone()]);
                ed.rep(r, u);
            }
            syn::Item::Type(t) => make_pub(&mut ed, &t.vis, r.start),
            syn::Item::Const(t) => make_pub(&mut ed, &t.vis, rng(t.const_token.span).start),
            syn::Item::Struct(s) => {
                let n = s.ident.to_string();
                derives(cx, &mut ed, &n, &s.attrs);
                make_pub(&mut ed, &s.vis, rng(s.struct_token.span).start);
                let private = cx.ov.structs.get(&n).is_some_and(|x| x.0.iter().any(|d| d == "@private"));
                pub_fields(&mut ed, &s.fields, private);
                if let Some((_, t)) = cx.ov.structs.get(&n) {
                    ed.ins(r.start, t.clone());
                }
                if let Some(w) = &s.generics.where_clause { let _ = w; }
            }
            syn::Item::Enum(e) => {
                derives(cx, &mut ed, &e.ident.to_string(), &e.attrs);
                make_pub(&mut ed, &e.vis, rng(e.enum_token.span).start);
                if let Some((_, t)) = cx.ov.structs.get(&e.ident.to_string()) {
                    ed.ins(r.start, t.clone());
                }
            }
            syn::Item::Fn(g) => {
                if is_test(&g.attrs) {
                    ed.rep(r, "");
                    continue;
                }
                let key = g.sig.ident.to_string();
                if !cx.ov.fns.contains_key(&key) {
                    cx.report.push(format!("dropped\t{}", key));
                    ed.rep(r, "");
                    continue;
                }
                do_fn(cx, &mut ed, &src, &key, r.start, &g.sig, Some(&g.block), None, false);
            }
            syn::Item::Trait(t) => {
                let n = t.ident.to_string();
                if let Some(x) = cx.ov.traits.get(&n) {
                    ed.ins(rng(t.brace_token.span.open()).end, format!("\n{}\n", x));
                    cx.seen.insert(format!("trait {}", n));
                } else {
                    ed.ins(r.start, "#[verifier::external]\n");
                    cx.report.push(format!("external\ttrait {}", n));
                    continue;
                }
                for x in &t.items {
                    if let syn::TraitItem::Fn(g) = x {
                        let key = format!("{}::{}", n, g.sig.ident);
                        let at = rng(g.span()).start;
                        if g.default.is_some() && !cx.ov.fns.contains_key(&key) {
                            // a provided method without contract is not part of the unit
                            cx.report.push(format!("dropped\t{}", key));
                            ed.rep(rng(g.span()), "");
                            continue;
                        }
                        do_fn(cx, &mut ed, &src, &key, at, &g.sig, g.default.as_ref(), g.semi_token.map(|s| rng(s.span).start), false);
                    }
                }
            }
            syn::Item::Impl(i) => {
                let ik = impl_key(i);
                let any = i.items.iter().any(|x| matches!(x, syn::ImplItem::Fn(f) if cx.ov.fns.contains_key(&format!("{}::{}", ik, f.sig.ident))));
                if !any && !cx.ov.impls.contains_key(&ik) {
                    let ms: Vec<String> = i.items.iter().filter_map(|x| if let syn::ImplItem::Fn(f) = x { Some(f.sig.ident.to_string()) } else { None }).collect();
                    cx.report.push(format!("dropped\timpl {}\t{}", ik, ms.join(",")));
                    ed.rep(r, "");
                    continue;
                }
                if let Some(x) = cx.ov.impls.get(&ik) {
                    ed.ins(rng(i.brace_token.span.open()).end, format!("\n{}\n", x));
                    cx.seen.insert(format!("impl {}", ik));
                }
                for x in &i.items {
                    if let syn::ImplItem::Fn(g) = x {
                        let key = format!("{}::{}", ik, g.sig.ident);
                        let at = rng(g.span()).start;
                        if !cx.ov.fns.contains_key(&key) && i.trait_.is_none() {
                            cx.report.push(format!("dropped\t{}", key));
                            ed.rep(rng(g.span()), "");
                            continue;
                        }
                        do_fn(cx, &mut ed, &src, &key, at, &g.sig, Some(&g.block), None, i.trait_.is_some());
                    }
                }
            }
            _ => {}
        }
    }
    let text = ed.apply(&src);
    // inner attributes and doc comments of the module are dropped with a plain comment
    let text = text
        .lines()
        .map(|l| {
            let t = l.trim_start();
            if t.starts_with("//!") || t.starts_with("#![") { String::new() } else { l.to_string() }
        })
        .collect::<Vec<_>>()
        .join("\n");
    let uses = cx
        .ov
        .uses
        .get(if modpath.is_empty() { "crate" } else { modpath })
        .cloned()
        .unwrap_or("use vstd::prelude::*;\n".into());
    cx.out.push_str(&format!("\n{}#[allow(unused_imports)] use crate::vspec::*;\nverus! {{\n", uses));
    cx.out.push_str(&text);
    if let Some(x) = cx.ov.items.get(if modpath.is_empty() { "crate" } else { modpath }) {
        cx.out.push('\n');
        cx.out.push_str(x);
    }
    cx.out.push_str("\n} // verus!\n");
    for (p, mp, d) in kids {
        if !kept(cx, &mp) {
            continue;
        }
        if !p.exists() {
            die(&format!("{} not found", p.display()));
        }
        let n = mp.rsplit("::").next().unwrap().to_string();
        cx.out.push_str(&format!("pub mod {} {{\n", n));
        emit(cx, &p, &mp, &d);
        cx.out.push_str(&format!("}} // mod {}\n", n));
    }
}

/// `use` of modules that are not kept are dropped when they stand alone
fn use_filter(cx: &Ctx, u: &str) -> String {
    let _ = cx;
    if u.starts_with("pub") { u.to_string() } else { format!("#[allow(unused_imports)] {}", u) }
}

fn main() {
    let mut cx = Ctx {
        ov: Overlay::default(),
        verify: Default::default(),
        falsify: false,
        norm: false,
        also: vec![],
        main_crate: String::new(),
        keep: None,
        binds: Default::default(),
        report: vec![],
        seen: Default::default(),
        helpers: Default::default(),
        out: String::new(),
    };
    let mut root = None;
    let mut also: Vec<(String, PathBuf)> = vec![];
    let mut out = None;
    let mut report = None;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().unwrap();
        match x.as_str() {
            "--root" => root = Some(PathBuf::from(v())),
            "--overlay" => {
                let p = v();
                read_overlay(Path::new(&p), &mut cx.ov)
            }
            "--verify" => {
                cx.verify.insert(v());
            }
            "--also" => {
                let s = v(); // NAME=ROOT: another crate of /repo, as a module
                let (n, p) = s.split_once('=').unwrap();
                cx.also.push(n.into());
                also.push((n.to_string(), PathBuf::from(p)));
            }
            "--norm" => cx.norm = true,
            "--falsify" => cx.falsify = true,
            "--keep" => {
                cx.keep.get_or_insert_with(Default::default).insert(v());
            }
            "--bind" => {
                let s = v(); // KEY|name=expr
                let (k, r) = s.split_once('|').unwrap();
                let (n, e) = r.split_once('=').unwrap();
                cx.binds.insert((k.into(), n.into()), e.into());
            }
            "--out" => out = Some(v()),
            "--report" => report = Some(v()),
            _ => die(&format!("unknown argument {}", x)),
        }
    }
    let root = root.unwrap();
    let dir = root.parent().unwrap().to_path_buf();
    cx.main_crate = dir.parent().and_then(|p| p.file_name()).map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
    load_helpers(&mut cx, &root, "", &dir);
    emit(&mut cx, &root, "", &dir);
    for (n, p) in also {
        let d = p.parent().unwrap().to_path_buf();
        load_helpers(&mut cx, &p, &n, &d);
        cx.out.push_str(&format!("pub mod {} {{\n", n));
        emit(&mut cx, &p, &n, &d);
        cx.out.push_str(&format!("}} // mod {}\n", n));
    }
    for k in cx.ov.fns.keys() {
        if !cx.seen.contains(k) && cx.verify.contains(k) {
            cx.report.push(format!("missing\t{}", k));
        }
    }
    let head = "#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, non_snake_case, unreachable_code)]\n";
    let text = format!(
        "{}pub mod vspec {{\nuse vstd::prelude::*;\nverus! {{\n{}\n}} // verus!\n}} // mod vspec\n{}\n",
        head, cx.ov.prelude, cx.out
    );
    std::fs::write(out.unwrap(), text).unwrap();
    std::fs::write(report.unwrap(), cx.report.join("\n") + "\n").unwrap();
}
