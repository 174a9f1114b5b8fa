//! Mechanical, type-free desugaring of the Rust subset that Verus does not accept into the
//! subset it does accept.  Every rewrite is semantics-preserving up to error *messages*
//! (all `anyhow` errors become one opaque error value).
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Res,
    Opt,
}
#[derive(Clone, Debug, Default)]
pub struct LoopInfo {
    pub auto: bool,
    pub inv: Vec<String>,
    /// element-wise facts generated from closure bodies (droppable with `%%opt noauto A0`)
    pub spec: Vec<String>,
    pub decreases: Option<String>,
}
pub struct Ctx {
    pub next: usize,
    pub loops: BTreeMap<usize, LoopInfo>,
    pub ret: Option<Kind>,
    pub hint: Option<Kind>,
    pub direct: bool,
    pub set_hint: bool,
    pub opts: BTreeMap<String, String>,
    pub helpers: HashMap<String, ItemFn>,
    pub used_helpers: Vec<String>,
    /// parameters of shared reference type: a `for` over one yields references
    pub refs: Vec<String>,
    pub depth: usize,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn err_val(k: Kind) -> Expr {
    match k {
        Kind::Res => parse_quote!(Err(vx_err())),
        Kind::Opt => parse_quote!(None),
    }
}
pub fn type_kind(t: &Type) -> Option<Kind> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Result" {
            return Some(Kind::Res);
        }
        if s.ident == "Option" {
            return Some(Kind::Opt);
        }
    }
    None
}
fn type_is(t: &Type, n: &str) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == n))
}
fn type_is_set(t: &Type) -> bool {
    if let Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() {
            return s.ident == "HashSet" || s.ident == "BTreeSet";
        }
    }
    false
}
fn mac_name(m: &Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn mac_args(m: &Macro) -> Vec<Expr> {
    use syn::punctuated::Punctuated;
    m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
        .map(|p| p.into_iter().collect())
        .unwrap_or_default()
}
/// first argument of a macro whose remaining arguments need not be plain expressions
fn mac_first(m: &Macro) -> Option<Expr> {
    let f = |i: syn::parse::ParseStream| -> syn::Result<Expr> {
        let e: Expr = i.parse()?;
        let _rest: TokenStream = i.parse()?;
        Ok(e)
    };
    m.parse_body_with(f).ok()
}
pub fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(g) => strip(&g.expr),
        _ => e,
    }
}
struct HasExit(bool);
impl<'a> Visit<'a> for HasExit {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = mac_name(m);
        if n == "bail" || n == "ensure" {
            self.0 = true;
        }
        if n == "vec" {
            for e in mac_args(m) {
                let mut h = HasExit(false);
                h.visit_expr(&e);
                self.0 |= h.0;
            }
        }
    }
}
pub fn has_exit_expr(e: &Expr) -> bool {
    let mut h = HasExit(false);
    h.visit_expr(e);
    h.0
}
fn has_exit_stmt(s: &Stmt) -> bool {
    let mut h = HasExit(false);
    h.visit_stmt(s);
    h.0
}
fn is_wrap(e: &Expr, name: &str) -> Option<Expr> {
    if let Expr::Call(c) = strip(e) {
        if let Expr::Path(p) = strip(&c.func) {
            if p.path.is_ident(name) && c.args.len() == 1 {
                return Some(c.args[0].clone());
            }
        }
    }
    None
}
/// `A?.m(..)` -> (A, tmp.m(..))  (leftmost evaluated position only)
fn hoist_left(e: &Expr, tmp: &Ident) -> Option<(Expr, Expr)> {
    match e {
        Expr::Try(t) => {
            if has_exit_expr(&t.expr) {
                return None;
            }
            Some(((*t.expr).clone(), parse_quote!(#tmp)))
        }
        Expr::MethodCall(m) => {
            let (a, r) = hoist_left(&m.receiver, tmp)?;
            let mut m2 = m.clone();
            if m2.args.iter().any(has_exit_expr) {
                return None;
            }
            m2.receiver = Box::new(r);
            Some((a, Expr::MethodCall(m2)))
        }
        Expr::Unary(u) => {
            let (a, r) = hoist_left(&u.expr, tmp)?;
            let mut u2 = u.clone();
            u2.expr = Box::new(r);
            Some((a, Expr::Unary(u2)))
        }
        Expr::Reference(u) => {
            let (a, r) = hoist_left(&u.expr, tmp)?;
            let mut u2 = u.clone();
            u2.expr = Box::new(r);
            Some((a, Expr::Reference(u2)))
        }
        Expr::Field(u) => {
            let (a, r) = hoist_left(&u.base, tmp)?;
            let mut u2 = u.clone();
            u2.base = Box::new(r);
            Some((a, Expr::Field(u2)))
        }
        Expr::Index(u) => {
            let (a, r) = hoist_left(&u.expr, tmp)?;
            let mut u2 = u.clone();
            if has_exit_expr(&u.index) {
                return None;
            }
            u2.expr = Box::new(r);
            Some((a, Expr::Index(u2)))
        }
        Expr::Cast(u) => {
            let (a, r) = hoist_left(&u.expr, tmp)?;
            let mut u2 = u.clone();
            u2.expr = Box::new(r);
            Some((a, Expr::Cast(u2)))
        }
        Expr::Paren(u) => {
            let (a, r) = hoist_left(&u.expr, tmp)?;
            Some((a, r))
        }
        _ => None,
    }
}

#[derive(Clone)]
enum It {
    E(Expr),
    R(Box<It>),
    T(Vec<It>),
}
fn it_expr(i: &It) -> Expr {
    match i {
        It::E(e) => e.clone(),
        It::R(i) => {
            let e = it_expr(i);
            parse_quote!(&#e)
        }
        It::T(v) => {
            let es: Vec<Expr> = v.iter().map(it_expr).collect();
            parse_quote!((#(#es),*))
        }
    }
}
fn bind(p: &Pat, i: &It, out: &mut Vec<Stmt>) -> Option<()> {
    match (p, i) {
        (Pat::Wild(_), _) => {}
        (Pat::Paren(q), _) => bind(&q.pat, i, out)?,
        (Pat::Ident(x), _) if x.by_ref.is_none() && x.subpat.is_none() => {
            let n = &x.ident;
            let m = &x.mutability;
            let e = it_expr(i);
            out.push(parse_quote!(let #m #n = #e;));
        }
        (Pat::Type(t), _) => {
            if let (Pat::Ident(x), ty) = (&*t.pat, &t.ty) {
                let n = &x.ident;
                let e = it_expr(i);
                out.push(parse_quote!(let #n: #ty = #e;));
            } else {
                bind(&t.pat, i, out)?;
            }
        }
        (Pat::Reference(r), It::R(j)) => bind(&r.pat, j, out)?,
        (Pat::Reference(r), It::E(e)) => bind(&r.pat, &It::E(parse_quote!(*#e)), out)?,
        (Pat::Tuple(t), It::T(v)) if t.elems.len() == v.len() => {
            for (a, b) in t.elems.iter().zip(v) {
                bind(a, b, out)?;
            }
        }
        (Pat::Tuple(t), It::R(j)) => match &**j {
            It::T(v) if t.elems.len() == v.len() => {
                for (a, b) in t.elems.iter().zip(v) {
                    // an explicit `&p` inside a pattern matched through a reference strips the element's own reference
                    if let Pat::Reference(_) = a { bind(a, b, out)?; continue; }
                    bind(a, &It::R(Box::new(b.clone())), out)?;
                }
            }
            It::R(k) => bind(p, k, out)?,
            It::E(e) => {
                for (n, a) in t.elems.iter().enumerate() {
                    let ix = Index::from(n);
                    bind(a, &It::R(Box::new(It::E(parse_quote!(#e.#ix)))), out)?;
                }
            }
            _ => return None,
        },
        (Pat::Tuple(t), It::E(e)) => {
            for (n, a) in t.elems.iter().enumerate() {
                let ix = Index::from(n);
                bind(a, &It::E(parse_quote!(#e.#ix)), out)?;
            }
        }
        _ => return None,
    }
    Some(())
}

enum Src {
    Slice { e: Expr, by_ref: bool },
    Range { lo: Expr, hi: Expr, incl: bool },
    Repeat { v: Expr, n: Expr },
}
enum Stage {
    Enumerate,
    Zip(Box<Pipe>),
    Rev,
    Skip(Expr),
    Take(Expr),
    Deref,
    Clone,
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
}
struct Pipe {
    src: Src,
    stages: Vec<Stage>,
}
fn tail_slice(e: &Expr) -> Option<(Expr, Expr)> {
    let Expr::Index(i) = strip(e) else { return None };
    let Expr::Range(r) = strip(&i.index) else { return None };
    let k = r.start.as_deref()?;
    if r.end.is_some() || !matches!(strip(k), Expr::Lit(_) | Expr::Path(_)) {
        return None;
    }
    Some(((*i.expr).clone(), k.clone()))
}
fn parse_pipe(e: &Expr) -> Option<Pipe> {
    match strip(e) {
        Expr::Range(r) => Some(Pipe {
            src: Src::Range {
                lo: (**r.start.as_ref()?).clone(),
                hi: (**r.end.as_ref()?).clone(),
                incl: matches!(r.limits, RangeLimits::Closed(_)),
            },
            stages: vec![],
        }),
        Expr::Call(c) => {
            if let Expr::Path(p) = strip(&c.func) {
                let s = p.path.segments.last()?;
                if s.ident == "repeat_n" && c.args.len() == 2 {
                    return Some(Pipe {
                        src: Src::Repeat { v: c.args[0].clone(), n: c.args[1].clone() },
                        stages: vec![],
                    });
                }
            }
            None
        }
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            match name.as_str() {
                "iter" if m.args.is_empty() => Some(Pipe {
                    src: Src::Slice { e: (*m.receiver).clone(), by_ref: true },
                    stages: vec![],
                }),
                "chunks_exact" if m.args.len() == 1 => {
                    let (r, n) = (&m.receiver, &m.args[0]);
                    Some(Pipe { src: Src::Slice { e: parse_quote!(vx_chunks_exact((#r).vx_s(), #n)), by_ref: false }, stages: vec![] })
                }
                "values" if m.args.is_empty() => {
                    let r = &m.receiver;
                    Some(Pipe { src: Src::Slice { e: parse_quote!(vx_values(&#r)), by_ref: false }, stages: vec![] })
                }
                "into_iter" if m.args.is_empty() => {
                    if let Some(p) = parse_pipe(&m.receiver) {
                        return Some(p);
                    }
                    Some(Pipe {
                        src: Src::Slice { e: (*m.receiver).clone(), by_ref: false },
                        stages: vec![],
                    })
                }
                "enumerate" | "rev" | "copied" | "cloned" if m.args.is_empty() => {
                    let mut p = parse_pipe(&m.receiver)?;
                    p.stages.push(match name.as_str() {
                        "enumerate" => Stage::Enumerate,
                        "rev" => Stage::Rev,
                        "copied" => Stage::Deref,
                        _ => Stage::Clone,
                    });
                    Some(p)
                }
                "step_by" if m.args.len() == 1 => {
                    let p = parse_pipe(&m.receiver)?;
                    let n = &m.args[0];
                    let k: Expr = match p.stages.as_slice() {
                        [] => parse_quote!(0usize),
                        [Stage::Skip(k)] => k.clone(),
                        _ => return None,
                    };
                    match p.src {
                        Src::Slice { e, by_ref: true } => Some(Pipe { src: Src::Slice { e: parse_quote!(vx_skip_step((#e).vx_s(), #k, #n)), by_ref: true }, stages: vec![] }),
                        _ => None,
                    }
                }
                "zip" | "skip" | "take" | "map" | "filter" | "filter_map" if m.args.len() == 1 => {
                    let mut p = parse_pipe(&m.receiver)?;
                    let a = m.args[0].clone();
                    p.stages.push(match name.as_str() {
                        "zip" => {
                            let q = match parse_pipe(&a) {
                                Some(q) => q,
                                None => match strip(&a) {
                                    Expr::Reference(r) => Pipe { src: Src::Slice { e: (*r.expr).clone(), by_ref: true }, stages: vec![] },
                                    o => Pipe { src: Src::Slice { e: o.clone(), by_ref: false }, stages: vec![] },
                                },
                            };
                            Stage::Zip(Box::new(q))
                        }
                        "skip" => Stage::Skip(a),
                        "take" => Stage::Take(a),
                        "map" => Stage::Map(a),
                        "filter_map" => Stage::FilterMap(a),
                        _ => Stage::Filter(a),
                    });
                    Some(p)
                }
                _ => None,
            }
        }
        _ => None,
    }
}

/// indexable part of a pipe after setup
struct Lowered {
    setup: Vec<Stmt>,
    lo: Expr,
    hi: Expr,
    down: bool,
    range: bool,
    item: Box<dyn Fn(&Expr, bool) -> It>,
    rest: Vec<Stage>,
    srcs: Vec<String>,
}

impl Ctx {
    pub fn new(ret: Option<Kind>, opts: BTreeMap<String, String>) -> Self {
        Ctx {
            next: 0,
            loops: BTreeMap::new(),
            ret,
            hint: None,
            direct: false,
            set_hint: false,
            opts,
            helpers: HashMap::new(),
            used_helpers: vec![],
            refs: vec![],
            depth: 0,
        }
    }
    fn fresh(&mut self) -> usize {
        self.next += 1;
        self.next
    }

    // ---- early-exit elimination inside closures / inlined helpers -------------------------
    fn cps_stmts(&mut self, st: &[Stmt], k: Kind) -> Option<Expr> {
        let s = st.first()?;
        let rest = &st[1..];
        match s {
            Stmt::Macro(m) if mac_name(&m.mac) == "bail" => return Some(err_val(k)),
            Stmt::Macro(m) if mac_name(&m.mac) == "ensure" => {
                let c = mac_first(&m.mac)?;
                let r = self.cps_stmts(rest, k)?;
                let ev = err_val(k);
                return Some(parse_quote!(if !(#c) { #ev } else { #r }));
            }
            _ => {}
        }
        if rest.is_empty() {
            return match s {
                Stmt::Expr(e, None) => self.cps_expr(e, k),
                Stmt::Expr(Expr::Return(r), _) => self.cps_expr(r.expr.as_ref()?, k),
                Stmt::Expr(e, Some(_)) => {
                    if diverges(e) { self.cps_expr(e, k) } else { None }
                }
                _ => None,
            };
        }
        if let Stmt::Expr(Expr::Return(r), _) = s {
            return self.cps_expr(r.expr.as_ref()?, k);
        }
        if !has_exit_stmt(s) {
            let r = self.cps_stmts(rest, k)?;
            return Some(match r {
                Expr::Block(b) if b.label.is_none() => {
                    let ss = &b.block.stmts;
                    parse_quote!({ #s #(#ss)* })
                }
                r => parse_quote!({ #s #r }),
            });
        }
        match s {
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && block_diverges(&i.then_branch) => {
                let t = self.cps_stmts(&i.then_branch.stmts, k)?;
                if has_exit_expr(&i.cond) {
                    return None;
                }
                let r = self.cps_stmts(rest, k)?;
                let c = &i.cond;
                Some(parse_quote!(if #c { #t } else { #r }))
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if let Some((_, els)) = &init.diverge {
                    if has_exit_expr(&init.expr) {
                        return None;
                    }
                    let e = match strip(els) {
                        Expr::Block(b) => self.cps_stmts(&b.block.stmts, k)?,
                        o => self.cps_expr(o, k)?,
                    };
                    let r = self.cps_stmts(rest, k)?;
                    let (p, x) = (&l.pat, &init.expr);
                    return Some(parse_quote!(match #x { #p => #r, _ => #e }));
                }
                let n = self.fresh();
                let tmp = format_ident!("hoT{}", n);
                let (a, rep) = hoist_left(&init.expr, &tmp)?;
                let mut l2 = l.clone();
                l2.init.as_mut().unwrap().expr = Box::new(rep);
                let s2 = Stmt::Local(l2);
                let mut st2 = vec![s2];
                st2.extend_from_slice(rest);
                let r = self.cps_stmts(&st2, k)?;
                Some(match k {
                    Kind::Res => parse_quote!(match #a { Ok(#tmp) => #r, Err(e) => Err(e) }),
                    Kind::Opt => parse_quote!(match #a { Some(#tmp) => #r, None => None }),
                })
            }
            Stmt::Expr(Expr::Try(t), _) if !has_exit_expr(&t.expr) => {
                let a = &t.expr;
                let r = self.cps_stmts(rest, k)?;
                Some(match k {
                    Kind::Res => parse_quote!(match #a { Ok(_) => #r, Err(e) => Err(e) }),
                    Kind::Opt => parse_quote!(match #a { Some(_) => #r, None => None }),
                })
            }
            _ => None,
        }
    }
    fn cps_expr(&mut self, e: &Expr, k: Kind) -> Option<Expr> {
        if !has_exit_expr(e) {
            return Some(e.clone());
        }
        match e {
            Expr::Paren(p) => self.cps_expr(&p.expr, k),
            Expr::Return(r) => self.cps_expr(r.expr.as_ref()?, k),
            Expr::Macro(m) if mac_name(&m.mac) == "bail" => Some(err_val(k)),
            Expr::Block(b) => self.cps_stmts(&b.block.stmts, k),
            Expr::If(i) => {
                if has_exit_expr(&i.cond) {
                    return None;
                }
                let t = self.cps_stmts(&i.then_branch.stmts, k)?;
                let el = self.cps_expr(&i.else_branch.as_ref()?.1, k)?;
                let c = &i.cond;
                Some(parse_quote!(if #c { #t } else { #el }))
            }
            Expr::Match(m) => {
                if has_exit_expr(&m.expr) {
                    let n = self.fresh();
                    let tmp = format_ident!("hoT{}", n);
                    let (a, rep) = hoist_left(&m.expr, &tmp)?;
                    let mut m2 = m.clone();
                    m2.expr = Box::new(rep);
                    let r = self.cps_expr(&Expr::Match(m2), k)?;
                    return Some(match k {
                        Kind::Res => parse_quote!(match #a { Ok(#tmp) => #r, Err(e) => Err(e) }),
                        Kind::Opt => parse_quote!(match #a { Some(#tmp) => #r, None => None }),
                    });
                }
                let mut m2 = m.clone();
                for a in &mut m2.arms {
                    *a.body = self.cps_expr(&a.body, k)?;
                    a.comma = Some(Default::default());
                }
                Some(Expr::Match(m2))
            }
            Expr::Call(_) => {
                let w = if k == Kind::Res { "Ok" } else { "Some" };
                let inner = is_wrap(e, w)?;
                let n = self.fresh();
                let tmp = format_ident!("hoT{}", n);
                let (a, rep) = hoist_left(&inner, &tmp)?;
                let wi = id(w);
                let r = self.cps_expr(&parse_quote!(#wi(#rep)), k)?;
                Some(match k {
                    Kind::Res => parse_quote!(match #a { Ok(#tmp) => #r, Err(e) => Err(e) }),
                    Kind::Opt => parse_quote!(match #a { Some(#tmp) => #r, None => None }),
                })
            }
            Expr::MethodCall(_) => {
                let n = self.fresh();
                let tmp = format_ident!("hoT{}", n);
                let (a, rep) = hoist_left(e, &tmp)?;
                let r = self.cps_expr(&rep, k)?;
                Some(match k {
                    Kind::Res => parse_quote!(match #a { Ok(#tmp) => #r, Err(e) => Err(e) }),
                    Kind::Opt => parse_quote!(match #a { Some(#tmp) => #r, None => None }),
                })
            }
            _ => None,
        }
    }

    // ---- iterator lowering -----------------------------------------------------------------
    fn lower_src(&mut self, p: Pipe, n: usize, sub: &mut usize) -> Option<Lowered> {
        let tag = if *sub == 0 { String::new() } else { format!("z{}", *sub) };
        *sub += 1;
        let mut setup: Vec<Stmt> = vec![];
        let mut srcs = vec![];
        let hi_id = format_ident!("hi{}T{}", tag, n);
        // `x[k..]` is `x` without its first k elements; the bound check of the slicing stays an obligation
        let mut p = p;
        if let Src::Slice { e, by_ref: true } = &p.src {
            if let Some((x, k)) = tail_slice(e) {
                let (mut chk, t) = (e.clone(), format_ident!("chk{}T{}", tag, n));
                self.sub_visit(&mut chk);
                setup.push(parse_quote!(let #t = (#chk).vx_s();));
                p.src = Src::Slice { e: x, by_ref: true };
                p.stages.insert(0, Stage::Skip(k));
            }
        }
        let (mut lo, mut hi, mut item, range): (Expr, Expr, Box<dyn Fn(&Expr, bool) -> It>, bool) = match p.src {
            Src::Slice { mut e, by_ref } => {
                self.sub_visit(&mut e);
                let s = format_ident!("src{}T{}", tag, n);
                srcs.push(s.to_string());
                if matches!(&e, Expr::MethodCall(_) | Expr::Call(_)) {
                    let t = format_ident!("tmp{}T{}", tag, n);
                    setup.push(parse_quote!(let #t = #e;));
                    setup.push(parse_quote!(let #s = #t.vx_s();));
                } else {
                    setup.push(parse_quote!(let #s = (#e).vx_s();));
                }
                let s2 = s.clone();
                let f: Box<dyn Fn(&Expr, bool) -> It> = Box::new(move |ix: &Expr, spec: bool| {
                    let e: Expr = if spec { parse_quote!(#s2.vx_view[#ix]) } else { parse_quote!(#s2[#ix]) };
                    if by_ref { It::R(Box::new(It::E(e))) } else { It::E(e) }
                });
                (parse_quote!(0usize), parse_quote!(#s.len()), f, false)
            }
            Src::Range { mut lo, mut hi, incl } => {
                self.sub_visit(&mut lo);
                self.sub_visit(&mut hi);
                let l = format_ident!("lo{}T{}", tag, n);
                if incl {
                    setup.push(parse_quote!(let #l = #lo;));
                    setup.push(parse_quote!(let #hi_id = (#hi) + 1;));
                } else {
                    setup.push(parse_quote!(let #l = #lo;));
                    setup.push(parse_quote!(let #hi_id = #hi;));
                }
                let f: Box<dyn Fn(&Expr, bool) -> It> = Box::new(|ix: &Expr, _| It::E(ix.clone()));
                (parse_quote!(#l), parse_quote!(#hi_id), f, true)
            }
            Src::Repeat { mut v, n: mut cnt } => {
                self.sub_visit(&mut v);
                self.sub_visit(&mut cnt);
                let s = format_ident!("rep{}T{}", tag, n);
                setup.push(parse_quote!(let #s = #v;));
                setup.push(parse_quote!(let #hi_id: usize = #cnt;));
                let f: Box<dyn Fn(&Expr, bool) -> It> = Box::new(move |_, _| It::E(parse_quote!(#s)));
                (parse_quote!(0usize), parse_quote!(#hi_id), f, false)
            }
        };
        let mut down = false;
        let mut rest = vec![];
        let mut zero_lo = !range;
        for st in p.stages {
            if !rest.is_empty() {
                rest.push(st);
                continue;
            }
            match st {
                Stage::Enumerate => {
                    if !zero_lo || down {
                        return None;
                    }
                    let f = item;
                    item = Box::new(move |ix: &Expr, spec: bool| {
                        let i: Expr = if spec { parse_quote!((#ix as usize)) } else { ix.clone() };
                        It::T(vec![It::E(i), f(ix, spec)])
                    });
                }
                Stage::Deref => {
                    let f = item;
                    item = Box::new(move |ix: &Expr, spec: bool| match f(ix, spec) {
                        It::R(i) => *i,
                        o => {
                            let e = it_expr(&o);
                            It::E(parse_quote!(*#e))
                        }
                    });
                }
                Stage::Clone => {
                    let f = item;
                    item = Box::new(move |ix: &Expr, spec: bool| match f(ix, spec) {
                        It::R(i) => {
                            let e = it_expr(&i);
                            It::E(if spec { e } else { parse_quote!(#e.clone()) })
                        }
                        o => o,
                    });
                }
                Stage::Rev => {
                    if down {
                        return None;
                    }
                    down = true;
                }
                Stage::Skip(mut k) => {
                    if !zero_lo || down {
                        return None;
                    }
                    self.sub_visit(&mut k);
                    let l = format_ident!("lo{}T{}", tag, n);
                    setup.push(parse_quote!(let #l: usize = vx_min(#k, #hi);));
                    lo = parse_quote!(#l);
                    zero_lo = false;
                }
                Stage::Take(mut k) => {
                    if !zero_lo || down {
                        return None;
                    }
                    self.sub_visit(&mut k);
                    let h = format_ident!("tk{}T{}", tag, n);
                    setup.push(parse_quote!(let #h: usize = vx_min(#k, #hi);));
                    hi = parse_quote!(#h);
                }
                Stage::Zip(q) => {
                    if !zero_lo || down {
                        return None;
                    }
                    let l2 = self.lower_src(*q, n, sub)?;
                    if !l2.rest.is_empty() || l2.down {
                        return None;
                    }
                    setup.extend(l2.setup);
                    srcs.extend(l2.srcs);
                    let h = format_ident!("zh{}T{}", tag, n);
                    let h2 = l2.hi;
                    if l2.range {
                        // zip with a range starting at literal 0 only
                        return None;
                    }
                    setup.push(parse_quote!(let #h: usize = vx_min(#hi, #h2);));
                    hi = parse_quote!(#h);
                    let f = item;
                    let g = l2.item;
                    item = Box::new(move |ix: &Expr, spec: bool| It::T(vec![f(ix, spec), g(ix, spec)]));
                }
                s @ (Stage::Map(_) | Stage::Filter(_) | Stage::FilterMap(_)) => rest.push(s),
            }
        }
        Some(Lowered { setup, lo, hi, down, range, item, rest, srcs })
    }
    fn sub_visit(&mut self, e: &mut Expr) {
        let h = self.hint.take();
        let d = std::mem::replace(&mut self.direct, false);
        self.visit_expr_mut(e);
        self.hint = h;
        self.direct = d;
    }
    /// Build `while` loop. `body` receives the item bindings already emitted.
    fn mk_loop(&mut self, lw: Lowered, n: usize, auto: bool, extra_cond: Option<Expr>, pre: Vec<Stmt>, body: Vec<Stmt>, binds: Vec<Stmt>, inv: Vec<String>, label: Option<Label>) -> Vec<Stmt> {
        let ix = format_ident!("ixT{}", n);
        let (lo, hi) = (&lw.lo, &lw.hi);
        let mut out = lw.setup;
        out.extend(pre);
        let nl = proc_macro2::Literal::usize_unsuffixed(n);
        let mut info = LoopInfo { auto, ..Default::default() };
        let los = tok(lo);
        let his = tok(hi);
        let cond: Expr;
        let step: Stmt;
        let (b1, b2): (Vec<Stmt>, Vec<Stmt>);
        if lw.down {
            out.push(if lw.range { parse_quote!(let mut #ix = vx_max(#lo, #hi);) } else { parse_quote!(let mut #ix: usize = #hi;) });
            cond = parse_quote!(#ix > #lo);
            step = parse_quote!(#ix = #ix - 1;);
            info.decreases = Some(format!("ixT{n} - ({los})"));
            info.inv.push(format!("ixT{n} >= {los}"));
            info.inv.push(format!("({los} <= {his}) ==> ixT{n} <= {his}"));
            info.inv.push(format!("({los} > {his}) ==> ixT{n} == {los}"));
            b1 = vec![step];
            b2 = binds;
        } else {
            out.push(if lw.range { parse_quote!(let mut #ix = #lo;) } else { parse_quote!(let mut #ix: usize = #lo;) });
            cond = parse_quote!(#ix < #hi);
            step = parse_quote!(#ix = #ix + 1;);
            info.decreases = Some(format!("{his} - ixT{n}"));
            info.inv.push(format!("ixT{n} >= {los}"));
            info.inv.push(format!("ixT{n} <= {his} || ixT{n} == {los}"));
            b1 = binds;
            b2 = vec![step];
        }
        for i in inv { if i.contains("forall|jj") || i.contains("let jj") { info.spec.push(i) } else { info.inv.push(i) } }
        self.loops.insert(n, info);
        let cond: Expr = match extra_cond {
            Some(c) => parse_quote!(#cond && #c),
            None => cond,
        };
        let w: Expr = parse_quote!(#label while #cond { __vx_loop!(#nl); #(#b1)* #(#b2)* __vx_p!(body #nl); #(#body)* __vx_p!(end #nl); });
        out.push(parse_quote!(__vx_p!(pre #nl);));
        out.push(Stmt::Expr(w, None));
        out.push(parse_quote!(__vx_p!(post #nl);));
        out
    }
    fn call_closure(&mut self, c: &Expr, it: &It, kind: Option<Kind>) -> Option<(Vec<Stmt>, Expr)> {
        match strip(c) {
            Expr::Closure(cl) => {
                if cl.inputs.len() != 1 {
                    return None;
                }
                let mut b = vec![];
                bind(&cl.inputs[0], it, &mut b)?;
                let mut body = (*cl.body).clone();
                if has_exit_expr(&body) {
                    let k = match &cl.output {
                        ReturnType::Type(_, t) => type_kind(t).or(kind),
                        _ => kind,
                    };
                    body = self.cps_expr(&body, k?)?;
                }
                Some((b, body))
            }
            Expr::Path(p) => {
                let a = it_expr(it);
                if p.path.segments.len() == 1 || p.path.segments.len() == 2 {
                    Some((vec![], parse_quote!(#p(#a))))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn lower_collect(&mut self, p: Pipe, kind: Option<Kind>, direct: bool, to_set: bool) -> Option<Expr> {
        let n = self.fresh();
        let mut sub = 0;
        let mut lw = self.lower_src(p, n, &mut sub)?;
        let out = format_ident!("outT{}", n);
        let ix: Expr = { let i = format_ident!("ixT{}", n); parse_quote!(#i) };
        let stages = std::mem::take(&mut lw.rest);
        let item = (lw.item)(&ix, false);
        let spec_item = (lw.item)(&parse_quote!(jj), true);
        let er = format_ident!("errT{}", n);
        // inner: statements that push
        let mut simple_map: Option<Expr> = None;
        let mut spec_ok = true;
        let n_st = stages.len();
        // Build from the last stage backwards
        fn build(c: &mut Ctx, st: &[Stage], it: It, last_kind: Option<Kind>, n: usize, direct: bool, to_set: bool) -> Option<Vec<Stmt>> {
            let out = format_ident!("outT{}", n);
            let er = format_ident!("errT{}", n);
            if st.is_empty() {
                let e = it_expr(&it);
                return Some(match last_kind {
                    None => if to_set { vec![parse_quote!(#out.insert(#e);)] } else { vec![parse_quote!(#out.push(#e);)] },
                    Some(Kind::Res) => {
                        if direct {
                            vec![parse_quote!(match #e { Ok(v) => { #out.push(v); } Err(e) => { return Err(e); } })]
                        } else {
                            vec![parse_quote!(match #e { Ok(v) => { #out.push(v); } Err(e) => { #er = Some(e); } })]
                        }
                    }
                    Some(Kind::Opt) => {
                        if direct {
                            vec![parse_quote!(match #e { Some(v) => { #out.push(v); } None => { return None; } })]
                        } else {
                            vec![parse_quote!(match #e { Some(v) => { #out.push(v); } None => { #er = true; } })]
                        }
                    }
                });
            }
            match &st[0] {
                Stage::Map(f) => {
                    let lk = if st.len() == 1 { last_kind } else { None };
                    let (b, body) = c.call_closure(f, &it, lk)?;
                    let m = c.fresh();
                    let v = format_ident!("valT{}", m);
                    let rest = build(c, &st[1..], It::E(parse_quote!(#v)), last_kind, n, direct, to_set)?;
                    let mut o: Vec<Stmt> = vec![];
                    o.push(parse_quote!(let #v = { #(#b)* #body };));
                    o.extend(rest);
                    Some(o)
                }
                Stage::Filter(f) => {
                    let (b, body) = c.call_closure(f, &It::R(Box::new(it.clone())), None)?;
                    let rest = build(c, &st[1..], it, last_kind, n, direct, to_set)?;
                    let m = c.fresh();
                    let v = format_ident!("keepT{}", m);
                    Some(vec![parse_quote!(let #v = { #(#b)* #body };), parse_quote!(if #v { #(#rest)* })])
                }
                Stage::FilterMap(f) => {
                    let (b, body) = c.call_closure(f, &it, Some(Kind::Opt))?;
                    let m = c.fresh();
                    let v = format_ident!("fmT{}", m);
                    let w = format_ident!("fvT{}", m);
                    let rest = build(c, &st[1..], It::E(parse_quote!(#w)), last_kind, n, direct, to_set)?;
                    Some(vec![parse_quote!(let #v = { #(#b)* #body };), parse_quote!(if let Some(#w) = #v { #(#rest)* })])
                }
                Stage::Deref => {
                    let it2 = match it { It::R(i) => *i, o => { let e = it_expr(&o); It::E(parse_quote!(*#e)) } };
                    build(c, &st[1..], it2, last_kind, n, direct, to_set)
                }
                Stage::Clone => {
                    let e = it_expr(&it);
                    build(c, &st[1..], It::E(parse_quote!(#e.clone())), last_kind, n, direct, to_set)
                }
                _ => None,
            }
        }
        // after filter/map on element: bare names for exec binding of element
        let el = format_ident!("elT{}", n);
        let _ = &el;
        if n_st == 1 {
            if let Stage::Map(f) = &stages[0] {
                if let Expr::Closure(_) = strip(f) {
                    simple_map = Some(f.clone());
                }
            }
        }
        let body = build(self, &stages, item, kind, n, direct, to_set)?;
        let mut inv = vec![];
        let los = tok(&lw.lo);
        let has_filter = stages.iter().any(|s| matches!(s, Stage::Filter(_) | Stage::FilterMap(_)));
        let errc = if kind.is_some() && !direct {
            match kind { Some(Kind::Res) => format!("errT{n} is None ==> "), _ => format!("!errT{n} ==> ") }
        } else { String::new() };
        if !has_filter && !to_set && !lw.down {
            inv.push(format!("{errc}(outT{n}.len() == ixT{n} - {los})"));
        }
        if !has_filter && !to_set && lw.down {
            let his = tok(&lw.hi);
            inv.push(format!("({los} <= {his}) ==> outT{n}.len() == {his} - ixT{n}"));
            inv.push(format!("({los} > {his}) ==> outT{n}.len() == 0"));
        }
        if n_st == 0 && !lw.down && kind.is_none() && !to_set {
            let mut b = vec![];
            bind(&parse_quote!(xx), &spec_item, &mut b);
            let e = tok(&it_expr(&spec_item));
            if !lw.range {
                inv.push(format!("forall|jj: int| #![trigger outT{n}@[jj]] 0 <= jj < ixT{n} ==> outT{n}@[jj] == {e}"));
            } else {
                inv.push(format!("forall|jj: int| #![trigger outT{n}@[jj]] 0 <= jj < outT{n}.len() ==> outT{n}@[jj] == {los} + jj"));
            }
        }
        if n_st == 0 && lw.down && lw.range && kind.is_none() && !to_set {
            let his = tok(&lw.hi);
            inv.push(format!("forall|jj: int| #![trigger outT{n}@[jj]] 0 <= jj < outT{n}.len() ==> outT{n}@[jj] == {his} - 1 - jj"));
        }
        if n_st == 1 && !lw.down {
            if let Some(Expr::Closure(cl)) = simple_map.as_ref().map(|f| strip(f).clone()) {
                let mut b = vec![];
                if bind(&cl.inputs[0], &spec_item, &mut b).is_some() {
                    let mut bodyx = (*cl.body).clone();
                    if has_exit_expr(&bodyx) {
                        if let Some(k) = kind {
                            if let Some(x) = self.cps_expr(&bodyx, k) { bodyx = x; } else { spec_ok = false; }
                        } else { spec_ok = false; }
                    }
                    let tgt = if los == "0usize" { format!("outT{n}@[jj]") } else { format!("outT{n}@[jj - {los}]") };
                    if spec_ok {
                        if let Some(post) = spec_post(&tgt, &bodyx, kind) {
                            let bs: String = b.iter().map(|s| tok(&s) + " ").collect();
                            let mut trg = format!("#![trigger {tgt}]");
                            for s in &lw.srcs { trg += &format!(" #![trigger {s}@[jj]]"); }
                            inv.push(format!("{errc}(forall|jj: int| {trg} {los} <= jj < ixT{n} ==> {{ {bs} {post} }})"));
                        }
                        if let (Some(k), false) = (kind, direct) {
                            if let Some(fc) = spec_fail(&bodyx, k) {
                                let bs: String = b.iter().map(|s| tok(&s) + " ").collect();
                                let set = if k == Kind::Res { format!("errT{n} is Some") } else { format!("errT{n}") };
                                inv.push(format!("{set} ==> ixT{n} > {los} && {{ let jj = (ixT{n} - 1) as int; {bs} {fc} }}"));
                            }
                        }
                    }
                }
            }
        }
        let mut pre: Vec<Stmt> = vec![if to_set { parse_quote!(let mut #out = vx_set_new();) } else { parse_quote!(let mut #out = vx_vec_new();) }];
        let mut cond = None;
        let fin: Expr = match (kind, direct) {
            (None, _) => parse_quote!(#out),
            (Some(_), true) => parse_quote!(#out),
            (Some(Kind::Res), false) => {
                pre.push(parse_quote!(let mut #er: Option<VErr> = None;));
                cond = Some(parse_quote!(#er.is_none()));
                parse_quote!(match #er { None => Ok(#out), Some(e) => Err(e) })
            }
            (Some(Kind::Opt), false) => {
                pre.push(parse_quote!(let mut #er: bool = false;));
                cond = Some(parse_quote!(!#er));
                parse_quote!(if #er { None } else { Some(#out) })
            }
        };
        let stmts = if lw.down { self.mk_loop(lw, n, true, cond, pre, body, vec![], inv, None) } else { self.mk_loop_after(lw, n, cond, pre, body, inv) };
        let fin: Expr = if direct && kind.is_some() && self.wrap_direct() {
            match kind { Some(Kind::Res) => parse_quote!(Ok(#fin)), _ => parse_quote!(Some(#fin)) }
        } else { fin };
        let mut r: Expr = parse_quote!({ #(#stmts)* #fin });
        self.after(&mut r);
        Some(r)
    }
    fn wrap_direct(&self) -> bool {
        false
    }
    fn after(&mut self, e: &mut Expr) {
        let h = self.hint.take();
        let d = std::mem::replace(&mut self.direct, false);
        visit_mut::visit_expr_mut(self, e);
        self.hint = h;
        self.direct = d;
    }
    fn lower_pred(&mut self, p: Pipe, method: &str, c: &Expr) -> Option<Expr> {
        let n = self.fresh();
        let mut sub = 0;
        let lw = self.lower_src(p, n, &mut sub)?;
        if !lw.rest.is_empty() || lw.down {
            return None;
        }
        let ix: Expr = { let i = format_ident!("ixT{}", n); parse_quote!(#i) };
        let mut it = (lw.item)(&ix, false);
        let mut sp = (lw.item)(&parse_quote!(jj), true);
        let elem = it_expr(&it);
        if method == "find" {
            it = It::R(Box::new(it));
            sp = It::R(Box::new(sp));
        }
        let (b, body) = self.call_closure(c, &it, None)?;
        let f = format_ident!("fndT{}", n);
        let neg = method == "all";
        let cnd: Expr = if neg { parse_quote!(!({ #(#b)* #body })) } else { parse_quote!({ #(#b)* #body }) };
        let mut inv = vec![];
        let los = tok(&lw.lo);
        if let Expr::Closure(cl) = strip(c) {
            let mut sb = vec![];
            if bind(&cl.inputs[0], &sp, &mut sb).is_some() {
                if let Some(s) = spec_expr(&cl.body) {
                    let bs: String = sb.iter().map(|s| tok(&s) + " ").collect();
                    let pred = if neg { format!("!({{ {bs} {s} }})") } else { format!("({{ {bs} {s} }})") };
                    let trig = match lw.srcs.first() { Some(s) => format!("#![trigger {s}@[jj]]"), None => "#![auto]".into() };
                    inv.push(format!("!fndT{n} ==> forall|jj: int| {trig} {los} <= jj < ixT{n} ==> !{pred}"));
                    inv.push(format!("fndT{n} ==> ixT{n} > {los} && {{ let jj = ixT{n} - 1; {pred} }}"));
                    inv.push(format!("fndT{n} ==> forall|jj: int| {trig} {los} <= jj < ixT{n} - 1 ==> !{pred}"));
                }
            }
        }
        let stb: Vec<Stmt> = vec![parse_quote!(if #cnd { #f = true; })];
        let hold: Vec<Stmt> = vec![];
        let _ = hold;
        let lo = lw.lo.clone();
        let pre: Vec<Stmt> = vec![parse_quote!(let mut #f = false;)];
        // bindings in the condition refer to ixT before increment: put step after body
        let stmts = self.mk_loop_after(lw, n, Some(parse_quote!(!#f)), pre, stb, inv);
        let fin: Expr = match method {
            "any" => parse_quote!(#f),
            "all" => parse_quote!(!#f),
            "position" => parse_quote!(if #f { Some((#ix - 1) - #lo) } else { None }),
            "find" => {
                let i1: Expr = parse_quote!((#ix - 1));
                let e2 = subst_ix(&elem, &ix, &i1);
                parse_quote!(if #f { Some(#e2) } else { None })
            }
            _ => return None,
        };
        let mut r: Expr = parse_quote!({ #(#stmts)* #fin });
        self.after(&mut r);
        Some(r)
    }
    fn mk_loop_after(&mut self, lw: Lowered, n: usize, extra: Option<Expr>, pre: Vec<Stmt>, body: Vec<Stmt>, inv: Vec<String>) -> Vec<Stmt> {
        // same as mk_loop (upwards) but the counter is advanced after the body
        let ix = format_ident!("ixT{}", n);
        let (lo, hi) = (&lw.lo, &lw.hi);
        let mut out = lw.setup.clone();
        out.extend(pre);
        let nl = proc_macro2::Literal::usize_unsuffixed(n);
        let los = tok(lo);
        let his = tok(hi);
        let mut info = LoopInfo { auto: true, ..Default::default() };
        info.decreases = Some(format!("{his} - ixT{n}"));
        info.inv.push(format!("ixT{n} >= {los}"));
        info.inv.push(format!("ixT{n} <= {his} || ixT{n} == {los}"));
        for i in inv { if i.contains("forall|jj") || i.contains("let jj") { info.spec.push(i) } else { info.inv.push(i) } }
        self.loops.insert(n, info);
        out.push(if lw.range { parse_quote!(let mut #ix = #lo;) } else { parse_quote!(let mut #ix: usize = #lo;) });
        out.push(parse_quote!(__vx_p!(pre #nl);));
        let cond: Expr = match extra { Some(c) => parse_quote!(#ix < #hi && #c), None => parse_quote!(#ix < #hi) };
        out.push(Stmt::Expr(parse_quote!(while #cond { __vx_loop!(#nl); __vx_p!(body #nl); #(#body)* #ix = #ix + 1; __vx_p!(end #nl); }), None));
        out.push(parse_quote!(__vx_p!(post #nl);));
        out
    }
    fn lower_for(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let mut own = false;
        // `for x in &mut v`, `for x in v.iter_mut()`: one element at a time
        let muts = match strip(&f.expr) {
            Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
            Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some((*m.receiver).clone()),
            _ => None,
        };
        if let (Some(v), Pat::Ident(_)) = (&muts, &*f.pat) {
            if !matches!(strip(v), Expr::Path(_) | Expr::Field(_)) { return None; }
            let n = self.fresh();
            let ix = format_ident!("ixT{}", n);
            let pat = &f.pat;
            let binds: Vec<Stmt> = vec![parse_quote!(let #pat = &mut #v[#ix];)];
            let lw = Lowered { setup: vec![], lo: parse_quote!(0usize), hi: parse_quote!(#v.len()), down: false, range: false, item: Box::new(|ix: &Expr, _| It::E(ix.clone())), rest: vec![], srcs: vec![] };
            let stmts = self.mk_loop(lw, n, false, None, vec![], f.body.stmts.clone(), binds, vec![], f.label.clone());
            let mut r: Expr = parse_quote!({ #(#stmts)* });
            self.after(&mut r);
            return Some(r);
        }
        let p = match parse_pipe(&f.expr) {
            Some(p) => p,
            None => match strip(&f.expr) {
                Expr::Reference(r) if r.mutability.is_none() => Pipe { src: Src::Slice { e: (*r.expr).clone(), by_ref: true }, stages: vec![] },
                o @ (Expr::Path(_) | Expr::Array(_) | Expr::Field(_)) => {
                    own = self.opts.contains_key("for_own") && matches!(o, Expr::Path(_));
                    let shared = !own && matches!(o, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.refs.iter().any(|r| i == r)));
                    Pipe { src: Src::Slice { e: o.clone(), by_ref: shared || self.opts.contains_key("for_ref") }, stages: vec![] }
                }
                o @ Expr::MethodCall(_) => Pipe { src: Src::Slice { e: o.clone(), by_ref: false }, stages: vec![] },
                _ => return None,
            },
        };
        let n = self.fresh();
        let mut sub = 0;
        let mut lw = self.lower_src(p, n, &mut sub)?;
        let ix: Expr = { let i = format_ident!("ixT{}", n); parse_quote!(#i) };
        let mut item = (lw.item)(&ix, false);
        if own { let e = it_expr(&item); item = It::E(parse_quote!((#e).vx_own())); }
        let stages = std::mem::take(&mut lw.rest);
        let mut binds = vec![];
        let mut body = f.body.stmts.clone();
        if stages.is_empty() {
            bind(&f.pat, &item, &mut binds)?;
        } else {
            // element-wise stages: only maps/filters without exits
            let mut it = item;
            let mut pre: Vec<Stmt> = vec![];
            let mut wrap: Option<Expr> = None;
            for s in &stages {
                match s {
                    Stage::Map(c) => {
                        if wrap.is_some() { return None; }
                        let (b, x) = self.call_closure(c, &it, None)?;
                        let m = self.fresh();
                        let v = format_ident!("valT{}", m);
                        pre.push(parse_quote!(let #v = { #(#b)* #x };));
                        it = It::E(parse_quote!(#v));
                    }
                    Stage::Filter(c) => {
                        if wrap.is_some() { return None; }
                        let (b, x) = self.call_closure(c, &It::R(Box::new(it.clone())), None)?;
                        let m = self.fresh();
                        let v = format_ident!("keepT{}", m);
                        pre.push(parse_quote!(let #v = { #(#b)* #x };));
                        wrap = Some(parse_quote!(#v));
                    }
                    _ => return None,
                }
            }
            let mut b2 = vec![];
            bind(&f.pat, &it, &mut b2)?;
            match wrap {
                Some(w) => {
                    let bb = body.clone();
                    binds = pre;
                    binds.push(parse_quote!(let keepN = #w;));
                    // element bindings may use ix: emit before the step
                    body = vec![parse_quote!(if keepN { #(#bb)* })];
                    binds.extend(b2);
                }
                None => {
                    binds = pre;
                    binds.extend(b2);
                }
            }
        }
        let stmts = self.mk_loop(lw, n, false, None, vec![], body, binds, vec![], f.label.clone());
        let mut r: Expr = parse_quote!({ #(#stmts)* });
        self.after(&mut r);
        Some(r)
    }

    fn inline_call(&mut self, params: &[(Pat, Option<Type>)], ret: &ReturnType, body: &Block, args: &[Expr], kind: Option<Kind>, tail_or_try: bool) -> Option<Expr> {
        let be: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: body.clone() });
        let rk = match ret { ReturnType::Type(_, t) => type_kind(t), _ => None }.or(kind);
        let e = if has_exit_expr(&be) {
            match rk.and_then(|k| self.cps_expr(&be, k)) {
                Some(x) => x,
                None => {
                    let _ = tail_or_try;
                    return None;
                }
            }
        } else {
            be
        };
        let n = self.fresh();
        let mut st: Vec<Stmt> = vec![];
        let tmps: Vec<Ident> = (0..args.len()).map(|i| format_ident!("arg{}T{}", i, n)).collect();
        if args.len() > 1 {
            for (t, a) in tmps.iter().zip(args) {
                st.push(parse_quote!(let #t = #a;));
            }
        }
        for (i, (p, t)) in params.iter().enumerate() {
            let a: Expr = if args.len() > 1 { let t = &tmps[i]; parse_quote!(#t) } else { args[i].clone() };
            if let (Pat::Ident(_), Some(ty)) = (p, t) {
                st.push(parse_quote!(let #p: #ty = #a;));
            } else {
                bind(p, &It::E(a), &mut st)?;
            }
        }
        Some(parse_quote!({ #(#st)* #e }))
    }
    fn inline_closures(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = strip(&init.expr) {
                        found = Some((p.ident.clone(), c.clone()));
                    }
                }
            }
            if let Some((name, cl)) = found {
                let mut v = InlineCl { name: name.to_string(), cl, cx: self, ok: true };
                let mut copy = b.stmts[i + 1..].to_vec();
                for s in &mut copy {
                    v.visit_stmt_mut(s);
                }
                if v.ok {
                    b.stmts.truncate(i);
                    b.stmts.extend(copy);
                    continue;
                }
            }
            i += 1;
        }
    }
}
struct InlineCl<'c> {
    name: String,
    cl: ExprClosure,
    cx: &'c mut Ctx,
    ok: bool,
}
impl VisitMut for InlineCl<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = strip(&c.func) {
                if p.path.is_ident(&self.name) {
                    let params: Vec<(Pat, Option<Type>)> = self
                        .cl
                        .inputs
                        .iter()
                        .map(|p| match p {
                            Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                            p => (p.clone(), None),
                        })
                        .collect();
                    let body: Block = match strip(&self.cl.body) {
                        Expr::Block(b) if b.label.is_none() => b.block.clone(),
                        o => parse_quote!({ #o }),
                    };
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    match self.cx.inline_call(&params, &self.cl.output, &body, &args, None, false) {
                        Some(x) => *e = x,
                        None => self.ok = false,
                    }
                }
            }
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident(&self.name) {
            // used as a value somewhere other than a call head
            // (call heads are also visited; they are replaced afterwards)
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}
fn subst_ix(e: &Expr, from: &Expr, to: &Expr) -> Expr {
    struct S<'a>(&'a str, &'a Expr);
    impl VisitMut for S<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if tok(&*e) == self.0 {
                *e = self.1.clone();
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut x = e.clone();
    S(&tok(from), to).visit_expr_mut(&mut x);
    x
}
pub fn tok<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(" . vx_view", "@")
}
fn block_diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => diverges(e),
        Some(Stmt::Macro(m)) => mac_name(&m.mac) == "bail",
        _ => false,
    }
}
fn diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Macro(m) => mac_name(&m.mac) == "bail",
        Expr::Block(b) => block_diverges(&b.block),
        Expr::If(i) => block_diverges(&i.then_branch) && i.else_branch.as_ref().map(|(_, e)| diverges(e)).unwrap_or(false),
        Expr::Match(m) => m.arms.iter().all(|a| diverges(&a.body)),
        _ => false,
    }
}
/// translate a pure expression to spec syntax
pub fn spec_expr(e: &Expr) -> Option<String> {
    Some(match e {
        Expr::Paren(p) => format!("({})", spec_expr(&p.expr)?),
        Expr::Path(_) | Expr::Lit(_) => tok(e),
        Expr::Binary(b) => {
            use BinOp::*;
            match b.op {
                Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | And(_) | Or(_) | Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) => {}
                _ => return None,
            }
            format!("({} {} {})", spec_expr(&b.left)?, tok(&b.op), spec_expr(&b.right)?)
        }
        Expr::Unary(u) => format!("({}{})", tok(&u.op), spec_expr(&u.expr)?),
        Expr::Cast(c) => format!("(({}) as {})", spec_expr(&c.expr)?, tok(&c.ty)),
        Expr::Index(i) => {
            if let Expr::Range(_) = strip(&i.index) {
                return None;
            }
            format!("{}@[({}) as int]", spec_expr(&i.expr)?, spec_expr(&i.index)?)
        }
        Expr::Field(f) => format!("{}.{}", spec_expr(&f.base)?, tok(&f.member)),
        Expr::Reference(r) => format!("&{}", spec_expr(&r.expr)?),
        Expr::If(i) => {
            if let Expr::Let(_) = &*i.cond {
                return None;
            }
            let b: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
            format!("(if {} {} else {{ {} }})", spec_expr(&i.cond)?, spec_expr(&b)?, spec_expr(&i.else_branch.as_ref()?.1)?)
        }
        Expr::Block(b) => {
            let mut s = String::from("{ ");
            let k = b.block.stmts.len();
            for (n, st) in b.block.stmts.iter().enumerate() {
                match st {
                    Stmt::Local(l) if n + 1 < k => {
                        let init = l.init.as_ref()?;
                        if init.diverge.is_some() {
                            return None;
                        }
                        if let Pat::Ident(p) = &l.pat {
                            s += &format!("let {} = {}; ", p.ident, spec_expr(&init.expr)?);
                        } else {
                            return None;
                        }
                    }
                    Stmt::Expr(e, None) if n + 1 == k => s += &spec_expr(e)?,
                    _ => return None,
                }
            }
            s + " }"
        }
        Expr::MethodCall(m) if m.args.is_empty() && (m.method == "len") => format!("{}.len()", spec_expr(&m.receiver)?),
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "is_empty" => format!("({}@.len() == 0)", spec_expr(&m.receiver)?),
        Expr::MethodCall(m) if m.args.len() == 1 && m.method == "contains" => {
            let a = spec_expr(&m.args[0])?;
            let a = a.strip_prefix('&').map(String::from).unwrap_or(format!("*{a}"));
            format!("{}@.contains({})", spec_expr(&m.receiver)?, a)
        }
        _ => return None,
    })
}
fn is_err_val(e: &Expr) -> bool {
    let e = strip(e);
    if let Expr::Block(b) = e {
        if b.block.stmts.len() == 1 {
            if let Stmt::Expr(x, None) = &b.block.stmts[0] {
                return is_err_val(x);
            }
        }
    }
    if let Expr::Path(p) = e {
        return p.path.is_ident("None");
    }
    is_wrap(e, "Err").is_some()
}
/// condition under which a `Result`/`Option`-valued pure expression is the error value
fn spec_fail(e: &Expr, k: Kind) -> Option<String> {
    let w = if k == Kind::Res { "Ok" } else { "Some" };
    if is_wrap(e, w).is_some() {
        return Some("false".into());
    }
    if is_err_val(e) {
        return Some("true".into());
    }
    match e {
        Expr::Paren(p) => spec_fail(&p.expr, k),
        Expr::If(i) => {
            if let Expr::Let(_) = &*i.cond {
                return None;
            }
            let b: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
            Some(format!("(if {} {{ {} }} else {{ {} }})", spec_expr(&i.cond)?, spec_fail(&b, k)?, spec_fail(&i.else_branch.as_ref()?.1, k)?))
        }
        Expr::Block(b) => {
            let mut s = String::from("{ ");
            let n = b.block.stmts.len();
            for (x, st) in b.block.stmts.iter().enumerate() {
                match st {
                    Stmt::Local(l) if x + 1 < n => {
                        let init = l.init.as_ref()?;
                        if init.diverge.is_some() {
                            return None;
                        }
                        if let Pat::Ident(p) = &l.pat {
                            s += &format!("let {} = {}; ", p.ident, spec_expr(&init.expr)?);
                        } else {
                            return None;
                        }
                    }
                    Stmt::Expr(e, None) if x + 1 == n => s += &spec_fail(e, k)?,
                    _ => return None,
                }
            }
            Some(s + " }")
        }
        _ => None,
    }
}
fn spec_post(t: &str, e: &Expr, kind: Option<Kind>) -> Option<String> {
    if let Some(k) = kind {
        let w = if k == Kind::Res { "Ok" } else { "Some" };
        if let Some(x) = is_wrap(e, w) {
            return spec_post(t, &x, None);
        }
        match e {
            Expr::If(i) => {
                if let Expr::Let(_) = &*i.cond {
                    return None;
                }
                let b: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                let c = spec_expr(&i.cond)?;
                let el = &i.else_branch.as_ref()?.1;
                if is_err_val(&b) {
                    return Some(format!("(!({c}) && {})", spec_post(t, el, kind)?));
                }
                if is_err_val(el) {
                    return Some(format!("(({c}) && {})", spec_post(t, &b, kind)?));
                }
                return Some(format!("(if {c} {{ {} }} else {{ {} }})", spec_post(t, &b, kind)?, spec_post(t, el, kind)?));
            }
            Expr::Paren(p) => return spec_post(t, &p.expr, kind),
            Expr::Block(_) => {}
            _ => return None,
        }
    }
    if REAL.with(|r| r.get()) && float_evidence(e) {
        return Some(format!("vr_of({t}) == {}", real_expr(e)?));
    }
    match e {
        Expr::Paren(p) => spec_post(t, &p.expr, kind),
        Expr::Tuple(tp) => {
            let mut v = vec![];
            for (n, x) in tp.elems.iter().enumerate() {
                v.push(spec_post(&format!("vx_p{}{n}({t})", tp.elems.len()), x, None)?);
            }
            Some(format!("({})", v.join(" && ")))
        }
        Expr::MethodCall(m) if m.args.is_empty() && (m.method == "clone" || m.method == "to_vec" || m.method == "to_string") => Some(format!("vx_veq({t}, {}@)", spec_expr(&m.receiver)?)),
        Expr::Block(b) => {
            let mut s = String::from("{ ");
            let k = b.block.stmts.len();
            for (n, st) in b.block.stmts.iter().enumerate() {
                match st {
                    Stmt::Local(l) if n + 1 < k => {
                        let init = l.init.as_ref()?;
                        if init.diverge.is_some() {
                            return None;
                        }
                        if let Pat::Ident(p) = &l.pat {
                            s += &format!("let {} = {}; ", p.ident, spec_expr(&init.expr)?);
                        } else {
                            return None;
                        }
                    }
                    Stmt::Expr(e, None) if n + 1 == k => s += &spec_post(t, e, kind)?,
                    _ => return None,
                }
            }
            Some(s + " }")
        }
        _ => Some(format!("{t} == {}", spec_expr(e)?)),
    }
}
fn cl1(e: &Expr) -> Option<(Pat, Expr, Option<Type>)> {
    if let Expr::Closure(c) = strip(e) {
        if c.inputs.len() == 1 {
            let (p, t) = match &c.inputs[0] {
                Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                p => (p.clone(), None),
            };
            return Some((p, (*c.body).clone(), t));
        }
    }
    None
}
fn cl0(e: &Expr) -> Option<Expr> {
    if let Expr::Closure(c) = strip(e) {
        if c.inputs.is_empty() {
            return Some((*c.body).clone());
        }
    }
    None
}

impl VisitMut for Ctx {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.inline_closures(b);
        // statement-level macros
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(m) => {
                    let n = mac_name(&m.mac);
                    match n.as_str() {
                        "bail" => out.push(parse_quote!(return Err(vx_err());)),
                        "ensure" => {
                            if let Some(c) = mac_first(&m.mac) {
                                out.push(parse_quote!(if !(#c) { return Err(vx_err()); }));
                            }
                        }
                        "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "eprintln" | "debug" | "info" | "warn" | "trace" => {}
                        "assert" => {
                            if let Some(c) = mac_first(&m.mac) {
                                out.push(parse_quote!(vx_assert(#c);));
                            }
                        }
                        "assert_eq" | "assert_ne" => {
                            let a = mac_args(&m.mac);
                            if a.len() >= 2 {
                                let (x, y) = (&a[0], &a[1]);
                                out.push(if n == "assert_eq" { parse_quote!(vx_assert(#x == #y);) } else { parse_quote!(vx_assert(#x != #y);) });
                            }
                        }
                        "panic" | "unreachable" | "todo" | "unimplemented" => out.push(parse_quote!(vx_unreachable();)),
                        _ => out.push(Stmt::Macro(m)),
                    }
                }
                Stmt::Item(Item::Use(_)) => {}
                // let [a, b, ..] = ARRAY.map(|v| BODY)  (element-wise, in order)
                // closures that only rewrite error values
                Stmt::Local(l) if self.opts.contains_key("errs") && matches!(l.init.as_ref().map(|i| strip(&i.expr)), Some(Expr::Closure(c)) if matches!(&c.output, ReturnType::Type(_, t) if tok(t).ends_with("Error"))) => {}
                Stmt::Local(l) if matches!((&l.pat, l.init.as_ref().map(|i| strip(&i.expr))), (Pat::Slice(p), Some(e)) if p.elems.iter().all(|x| matches!(x, Pat::Ident(_))) && !matches!(e, Expr::MethodCall(m) if m.method != "map")) => {
                    let (Pat::Slice(p), Some(i)) = (&l.pat, &l.init) else { unreachable!() };
                    let (src, cl): (Expr, Option<ExprClosure>) = match strip(&i.expr) {
                        Expr::MethodCall(m) => match m.args.first().map(strip) { Some(Expr::Closure(c)) => ((*m.receiver).clone(), Some(c.clone())), _ => { out.push(Stmt::Local(l)); continue; } },
                        e => (e.clone(), None),
                    };
                    for (k, x) in p.elems.iter().enumerate() {
                        let ix = proc_macro2::Literal::usize_unsuffixed(k);
                        match &cl {
                            Some(c) if c.inputs.len() == 1 => { let (v, b) = (&c.inputs[0], &c.body); out.push(parse_quote!(let #x = { let #v = #src[#ix]; #b };)); }
                            _ => out.push(parse_quote!(let #x = #src[#ix];)),
                        }
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        let k = b.stmts.len();
        let (h, d) = (self.hint.take(), std::mem::replace(&mut self.direct, false));
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if i + 1 == k {
                if let Stmt::Expr(e, None) = s {
                    self.hint = h;
                    self.direct = d;
                    self.visit_expr_mut(e);
                    self.hint = None;
                    self.direct = false;
                    continue;
                }
            }
            self.hint = None;
            self.direct = false;
            self.visit_stmt_mut(s);
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        // `let Some(&x) = ..` style reference patterns are handled for `if let` below
        let hint = match &l.pat {
            Pat::Type(t) => {
                self.set_hint = type_is_set(&t.ty);
                type_kind(&t.ty)
            }
            _ => None,
        };
        // let &x = e;
        if let Some(init) = &mut l.init {
            self.hint = hint;
            self.direct = false;
            let deque = matches!(&l.pat, Pat::Type(t) if type_is(&t.ty, "VecDeque")) && matches!(strip(&init.expr), Expr::MethodCall(m) if m.method == "collect");
            let smap = matches!(&l.pat, Pat::Type(t) if type_is(&t.ty, "HashMap")) && matches!(strip(&init.expr), Expr::MethodCall(m) if m.method == "collect");
            self.visit_expr_mut(&mut init.expr);
            if deque { let x = (*init.expr).clone(); *init.expr = parse_quote!(vx_deque(#x)); }
            if smap { let x = (*init.expr).clone(); *init.expr = parse_quote!(vx_smap(#x)); }
            self.hint = None;
            self.set_hint = false;
            if let Some((_, d)) = &mut init.diverge {
                self.visit_expr_mut(d);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let hint = self.hint.take();
        let direct = std::mem::replace(&mut self.direct, false);
        match e {
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_str_lit(&b.left) || is_str_lit(&b.right)) => {
                let (mut x, l) = if is_str_lit(&b.right) { ((*b.left).clone(), (*b.right).clone()) } else { ((*b.right).clone(), (*b.left).clone()) };
                self.visit_expr_mut(&mut x);
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vx_str_eq(&#x, #l)) } else { parse_quote!(!vx_str_eq(&#x, #l)) };
                return;
            }
            // `x[a..b] == Y` on byte ranges
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_range_index(&b.left) || is_range_index(&b.right)) => {
                let (mut x, mut y) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vx_seq_eq(&#x, &#y)) } else { parse_quote!(!vx_seq_eq(&#x, &#y)) };
                return;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && byte_lit(&u.expr).is_some() => {
                *e = byte_lit(&u.expr).unwrap();
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) if self.opts.contains_key("vf") => {
                if let Some((n, d)) = rational(f) {
                    let (n, d) = (LitInt::new(&n, f.span()), LitInt::new(&d, f.span()));
                    *e = parse_quote!(vx_lit(#n, #d));
                }
                return;
            }
            Expr::Binary(b) if self.opts.contains_key("vf") && matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)) => {
                let (l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut r);
                *e = match b.op {
                    BinOp::AddAssign(_) => parse_quote!(#l = #l + (#r)),
                    BinOp::SubAssign(_) => parse_quote!(#l = #l - (#r)),
                    BinOp::MulAssign(_) => parse_quote!(#l = #l * (#r)),
                    _ => parse_quote!(#l = #l / (#r)),
                };
                return;
            }
            // `x.ceil() as usize`, `x.round() as i64`
            Expr::Cast(c) if self.opts.contains_key("vf") && matches!(tok(&c.ty).as_str(), "usize" | "u32" | "i64" | "u64") && matches!(strip(&c.expr), Expr::MethodCall(m) if ["ceil", "floor", "round", "trunc"].iter().any(|n| m.method == n)) => {
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                let f = format_ident!("vx_ftoi_{}", tok(&c.ty));
                *e = parse_quote!(#f(#x));
                return;
            }
            // `x as f64`
            Expr::Cast(c) if self.opts.contains_key("fcast") && matches!(tok(&c.ty).as_str(), "f64" | "f32") => {
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = if tok(&c.ty) == "f64" { parse_quote!(vx_to_f64(#x)) } else { parse_quote!(vx_to_f32(#x)) };
                return;
            }
            // shifts: value times a power of two (the contract demands that nothing is shifted out)
            Expr::Binary(b) if self.opts.contains_key("shl") && matches!(b.op, BinOp::Shl(_) | BinOp::ShlAssign(_)) => {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                *e = if matches!(b.op, BinOp::Shl(_)) { parse_quote!(vx_shl(#l, #r)) } else { parse_quote!(#l = vx_shl(#l, #r)) };
                return;
            }
            // error values carry no information in the extraction
            Expr::Call(c) if self.opts.contains_key("errs") && c.args.len() == 1 && matches!(strip(&c.func), Expr::Path(p) if p.path.is_ident("Err")) => {
                *e = parse_quote!(Err(vx_err()));
                return;
            }
            // `T::from_le_bytes(x.try_into().unwrap())`
            Expr::Call(c) if c.args.len() == 1 && from_le(c).is_some() => {
                let (f, mut r) = from_le(c).unwrap();
                self.visit_expr_mut(&mut r);
                if is_range_index(&r) { r = parse_quote!(&#r); }
                *e = parse_quote!(#f(#r));
                return;
            }
            Expr::Try(t) => {
                // collect()? / collect::<Result<..>>()?
                if let Expr::MethodCall(m) = strip(&t.expr) {
                    if m.method == "collect" {
                        if let Some(p) = parse_pipe(&m.receiver) {
                            let k = turbofish_kind(m).or(self.ret);
                            if let Some(x) = self.lower_collect(p, k, true, false) {
                                *e = x;
                                return;
                            }
                        }
                    }
                }
                self.visit_expr_mut(&mut t.expr);
                return;
            }
            Expr::Macro(m) => {
                match mac_name(&m.mac).as_str() {
                    "bail" => *e = parse_quote!(return Err(vx_err())),
                    "anyhow" => *e = parse_quote!(vx_err()),
                    "format" => {
                        *e = match self.opts.contains_key("fmt").then(|| fmt_parts(&m.mac.tokens)).flatten() {
                            Some((t, args)) => {
                                let f = syn::Ident::new(&format!("vx_fmt{}", args.len()), proc_macro2::Span::call_site());
                                let mut args: Vec<Expr> = args;
                                for a in args.iter_mut() {
                                    self.visit_expr_mut(a);
                                }
                                parse_quote!(#f(#t, #(&#args),*))
                            }
                            None => parse_quote!(vx_string()),
                        }
                    }
                    "panic" | "unreachable" | "todo" | "unimplemented" => *e = parse_quote!(vx_unreachable()),
                    "vec" => {
                        let args = mac_args(&m.mac);
                        if !args.is_empty() {
                            let mut args = args;
                            for a in &mut args {
                                self.visit_expr_mut(a);
                            }
                            m.mac.tokens = quote!(#(#args),*);
                        } else if let Ok(r) = syn::parse2::<ExprRepeat>({ let t = &m.mac.tokens; quote!([#t]) }) {
                            let (mut a, mut b) = (*r.expr, *r.len);
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            let empty = matches!(&a, Expr::Macro(m) if mac_name(&m.mac) == "vec" && m.mac.tokens.is_empty());
                            *e = if empty { parse_quote!(vx_empty_vecs(#b)) } else { parse_quote!(vx_vec_repeat(#a, #b)) };
                        }
                    }
                    _ => {}
                }
                return;
            }
            Expr::ForLoop(f) => {
                if let Some(x) = self.lower_for(&f.clone()) {
                    *e = x;
                    return;
                }
            }
            Expr::While(w) => {
                if let Some(Stmt::Macro(m)) = w.body.stmts.first() {
                    if mac_name(&m.mac) == "__vx_loop" {
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                let n = self.fresh();
                let nl = proc_macro2::Literal::usize_unsuffixed(n);
                self.loops.insert(n, LoopInfo::default());
                w.body.stmts.insert(0, parse_quote!(__vx_loop!(#nl);));
                w.body.stmts.insert(1, parse_quote!(__vx_p!(body #nl);));
                w.body.stmts.push(parse_quote!(__vx_p!(end #nl);));
                visit_mut::visit_expr_mut(self, e);
                let w = e.clone();
                *e = parse_quote!({ __vx_p!(pre #nl); #w __vx_p!(post #nl); });
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.hint = self.ret;
                    self.direct = true;
                    let is_col = matches!(strip(x), Expr::MethodCall(m) if m.method == "collect");
                    if !is_col { self.hint = None; self.direct = false; }
                    self.visit_expr_mut(x);
                    self.hint = None;
                    self.direct = false;
                }
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "collect" if keys_of(&m.receiver).is_some() => {
                        let mut x = keys_of(&m.receiver).unwrap();
                        self.visit_expr_mut(&mut x);
                        *e = parse_quote!(vx_keys(&#x));
                        return;
                    }
                    "collect" => {
                        if let Some(p) = parse_pipe(&m.receiver) {
                            let k = turbofish_kind(m).or(hint);
                            let to_set = self.set_hint || turbofish_set(m);
                            self.set_hint = false;
                            if let Some(x) = self.lower_collect(p, k, false, to_set) {
                                *e = x;
                                return;
                            }
                        }
                    }
                    "any" | "all" | "find" | "position" => {
                        if let Some(p) = parse_pipe(&m.receiver) {
                            let c = m.args[0].clone();
                            if let Some(x) = self.lower_pred(p, &name, &c) {
                                *e = x;
                                return;
                            }
                        }
                    }
                    "as_deref" if m.args.is_empty() => {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!((#r).vx_as_deref());
                        return;
                    }
                    "clamp" if m.args.len() == 2 => {
                        let (mut r, mut a, mut b) = ((*m.receiver).clone(), m.args[0].clone(), m.args[1].clone());
                        self.visit_expr_mut(&mut r);
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        *e = parse_quote!(vx_clamp(#r, #a, #b));
                        return;
                    }
                    "sum" | "product" | "max" | "min" | "count" if m.args.is_empty() => {
                        if let Some(p) = parse_pipe(&m.receiver) {
                            let fl = self.opts.contains_key("vf") && m.turbofish.as_ref().is_some_and(|t| tok(&t.args) == "f64");
                            let f = format_ident!("vx_{}{}", if fl { "f" } else { "" }, if name == "max" { "seq_max" } else if name == "min" { "seq_min" } else { &name });
                            let plain = p.stages.iter().all(|s| matches!(s, Stage::Deref | Stage::Clone));
                            if plain {
                                if let Src::Slice { e: mut s, .. } = p.src {
                                    self.visit_expr_mut(&mut s);
                                    *e = parse_quote!(#f((#s).vx_s()));
                                    return;
                                }
                            } else if let Some(x) = self.lower_collect(p, None, false, false) {
                                *e = parse_quote!(#f((#x).vx_s()));
                                return;
                            }
                        }
                    }
                    // float reductions: `fold(init, f64::max)`, `fold(init, f64::min)`
                    "fold" if m.args.len() == 2 && self.opts.contains_key("vf") && fold_op(&m.args[1]).is_some() => {
                        if let Some(p) = parse_pipe(&m.receiver) {
                            let f = format_ident!("vx_f{}_fold", fold_op(&m.args[1]).unwrap());
                            let mut init = m.args[0].clone();
                            self.visit_expr_mut(&mut init);
                            let plain = p.stages.iter().all(|s| matches!(s, Stage::Deref | Stage::Clone));
                            if plain {
                                if let Src::Slice { e: mut s, .. } = p.src {
                                    self.visit_expr_mut(&mut s);
                                    *e = parse_quote!(#f(#init, (#s).vx_s()));
                                    return;
                                }
                            } else if let Some(x) = self.lower_collect(p, None, false, false) {
                                *e = parse_quote!(#f(#init, (#x).vx_s()));
                                return;
                            }
                        }
                    }
                    "extend" if m.args.len() == 1 => {
                        let a = &m.args[0];
                        let p = parse_pipe(a).or_else(|| match strip(a) {
                            Expr::Reference(r) => Some(Pipe { src: Src::Slice { e: (*r.expr).clone(), by_ref: true }, stages: vec![Stage::Clone] }),
                            _ => None,
                        });
                        if let Some(p) = p {
                            if let Some(x) = self.lower_collect(p, None, false, false) {
                                let mut r = (*m.receiver).clone();
                                self.visit_expr_mut(&mut r);
                                let n = self.fresh();
                                let t = format_ident!("extT{}", n);
                                *e = parse_quote!({ let mut #t = #x; #r.append(&mut #t); });
                                return;
                            }
                        }
                    }
                    "is_power_of_two" | "trailing_zeros" | "leading_zeros" if m.args.is_empty() && self.opts.contains_key("shl") => {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let f = format_ident!("vx_{}", m.method);
                        *e = parse_quote!(#f(#r));
                        return;
                    }
                    "ok_or_else" | "ok_or" => {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!(vx_ok_or(#r));
                        return;
                    }
                    "map_err" => {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!(vx_map_err(#r));
                        return;
                    }
                    "context" | "with_context" => {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!((#r).vx_ctx());
                        return;
                    }
                    "and_then" | "map" | "filter" | "unwrap_or_else" | "or_else" | "copied" | "cloned" | "map_or" | "is_some_and" | "is_none_or" | "map_or_else"
                        if parse_pipe(e_ref(m)).is_none() =>
                    {
                        let res = self.opts.contains_key("map_result");
                        let r = (*m.receiver).clone();
                        let new: Option<Expr> = match name.as_str() {
                            "copied" => Some(parse_quote!(match #r { Some(v) => Some(*v), None => None })),
                            "cloned" => Some(parse_quote!(match #r { Some(v) => Some(v.clone()), None => None })),
                            "and_then" | "map" if m.args.len() == 1 => {
                                let wrapped = name == "map";
                                match cl1(&m.args[0]) {
                                    Some((p, b, _)) => {
                                        let b = if has_exit_expr(&b) { self.cps_expr(&b, if res { Kind::Res } else { Kind::Opt }) } else { Some(b) };
                                        match b {
                                            Some(b) => {
                                                let mut st = vec![];
                                                let v = format_ident!("mvT{}", self.fresh());
                                                let direct_pat = matches!(p, Pat::Ident(_) | Pat::Tuple(_) | Pat::Wild(_));
                                                let (pat, body): (Pat, Expr) = if direct_pat {
                                                    (p, b)
                                                } else {
                                                    if bind(&p, &It::E(parse_quote!(#v)), &mut st).is_none() {
                                                        visit_mut::visit_expr_mut(self, e);
                                                        return;
                                                    }
                                                    (parse_quote!(#v), parse_quote!({ #(#st)* #b }))
                                                };
                                                let body: Expr = match (wrapped, res) {
                                                    (true, false) => parse_quote!(Some(#body)),
                                                    (true, true) => parse_quote!(Ok(#body)),
                                                    _ => body,
                                                };
                                                Some(if res {
                                                    parse_quote!(match #r { Ok(#pat) => #body, Err(e) => Err(e) })
                                                } else {
                                                    parse_quote!(match #r { Some(#pat) => #body, None => None })
                                                })
                                            }
                                            None => None,
                                        }
                                    }
                                    None => match strip(&m.args[0]) {
                                        Expr::Path(p) => Some(match (wrapped, res) {
                                            (true, false) => parse_quote!(match #r { Some(v) => Some(#p(v)), None => None }),
                                            (true, true) => parse_quote!(match #r { Ok(v) => Ok(#p(v)), Err(e) => Err(e) }),
                                            (false, false) => parse_quote!(match #r { Some(v) => #p(v), None => None }),
                                            (false, true) => parse_quote!(match #r { Ok(v) => #p(v), Err(e) => Err(e) }),
                                        }),
                                        _ => None,
                                    },
                                }
                            }
                            "map_or" if m.args.len() == 2 => {
                                let d = m.args[0].clone();
                                cl1(&m.args[1]).map(|(p, b, _)| {
                                    let mut st = vec![];
                                    let _ = bind(&p, &It::E(parse_quote!(mvX)), &mut st);
                                    parse_quote!(match #r { Some(mvX) => { #(#st)* #b }, None => #d })
                                })
                            }
                            "map_or_else" if m.args.len() == 2 => match (cl0(&m.args[0]), cl1(&m.args[1])) {
                                (Some(d), Some((p, b, _))) => Some(parse_quote!(match #r { Some(#p) => #b, None => #d })),
                                _ => None,
                            },
                            "is_some_and" => cl1(&m.args[0]).map(|(p, b, _)| {
                                let mut st = vec![];
                                let _ = bind(&p, &It::E(parse_quote!(mvX)), &mut st);
                                parse_quote!(match #r { Some(mvX) => { #(#st)* #b }, None => false })
                            }),
                            "is_none_or" => cl1(&m.args[0]).map(|(p, b, _)| {
                                let mut st = vec![];
                                let _ = bind(&p, &It::E(parse_quote!(mvX)), &mut st);
                                parse_quote!(match #r { Some(mvX) => { #(#st)* #b }, None => true })
                            }),
                            "filter" => cl1(&m.args[0]).map(|(p, b, _)| {
                                let v = format_ident!("flT{}", self.fresh());
                                let mut st = vec![];
                                let _ = bind(&p, &It::R(Box::new(It::E(parse_quote!(#v)))), &mut st);
                                parse_quote!(match #r { Some(#v) => { let keepX = { #(#st)* #b }; if keepX { Some(#v) } else { None } }, None => None })
                            }),
                            "unwrap_or_else" => match cl0(&m.args[0]) {
                                Some(b) => Some(parse_quote!(match #r { Some(v) => v, None => #b })),
                                None => cl1(&m.args[0]).map(|(p, b, _)| parse_quote!(match #r { Ok(v) => v, Err(#p) => #b })),
                            },
                            "or_else" => match cl0(&m.args[0]) {
                                Some(b) => {
                                    let b = if has_exit_expr(&b) { self.cps_expr(&b, Kind::Opt) } else { Some(b) };
                                    b.map(|b| parse_quote!(match #r { Some(v) => Some(v), None => #b }))
                                }
                                None => None,
                            },
                            _ => None,
                        };
                        if let Some(x) = new {
                            *e = x;
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    _ => {}
                }
            }
            Expr::If(i) => {
                // `if let Some(&x) = E {..}` -> `if let Some(x_r) = E { let x = *x_r; ..}`
                if let Expr::Let(l) = &mut *i.cond {
                    let mut st: Vec<Stmt> = vec![];
                    deref_pat(&mut l.pat, &mut st, &mut self.next);
                    if !st.is_empty() {
                        st.extend(i.then_branch.stmts.clone());
                        i.then_branch.stmts = st;
                    }
                }
                self.visit_expr_mut(&mut i.cond);
                self.hint = hint;
                self.direct = direct;
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, el)) = &mut i.else_branch {
                    self.hint = hint;
                    self.direct = direct;
                    self.visit_expr_mut(el);
                }
                return;
            }
            Expr::Match(m) => {
                lower_str_arms(m);
                for a in &mut m.arms {
                    let mut st: Vec<Stmt> = vec![];
                    deref_pat(&mut a.pat, &mut st, &mut self.next);
                    if !st.is_empty() && a.guard.is_none() {
                        let b = (*a.body).clone();
                        *a.body = parse_quote!({ #(#st)* #b });
                    }
                }
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.hint = hint;
                    self.direct = direct;
                    self.visit_expr_mut(&mut a.body);
                }
                return;
            }
            Expr::Block(b) => {
                self.hint = hint;
                self.direct = direct;
                self.visit_block_mut(&mut b.block);
                return;
            }
            Expr::Call(c) => {
                // helper inlining
                if let Expr::Path(p) = strip(&c.func) {
                    // a helper may be called with its type arguments spelled out
                    let plain = p.path.get_ident().map(|i| i.to_string());
                    let called = if p.qself.is_none() && p.path.leading_colon.is_none() && p.path.segments.len() == 1 { Some(p.path.segments[0].ident.to_string()) } else { None };
                    if let Some(s) = plain.or_else(|| called.filter(|s| self.helpers.contains_key(s))) {
                        if self.depth < 4 {
                            if let Some(h) = self.helpers.get(&s).cloned() {
                                let params: Option<Vec<(Pat, Option<Type>)>> = h.sig.inputs.iter().map(|a| match a {
                                    FnArg::Typed(t) => Some(((*t.pat).clone(), Some((*t.ty).clone()))),
                                    _ => None,
                                }).collect();
                                let args: Vec<Expr> = c.args.iter().cloned().collect();
                                if let Some(params) = params {
                                    // a reference handed on under its own name is simply used; under another it is reborrowed
                                    let (mut ps, mut as_) = (vec![], vec![]);
                                    if params.len() == args.len() {
                                        for ((p, t), a) in params.into_iter().zip(args) {
                                            let by_mut = matches!(&t, Some(Type::Reference(r)) if r.mutability.is_some());
                                            let (pn, an) = (if let Pat::Ident(i) = &p { Some(i.ident.clone()) } else { None }, if let Expr::Path(q) = &a { q.path.get_ident().cloned() } else { None });
                                            if by_mut && pn.is_some() && pn == an { continue; }
                                            as_.push(if by_mut && an.is_some() { parse_quote!(&mut *#a) } else { a });
                                            ps.push((p, t));
                                        }
                                    } else { ps = vec![(parse_quote!(_), None)]; as_ = vec![]; }
                                    let (params, args) = (ps, as_);
                                    let params: Vec<_> = if h.sig.generics.params.is_empty() { params } else { params.into_iter().map(|(p, _)| (p, None)).collect() };
                                    if params.len() == args.len() {
                                        if let Some(x) = self.inline_call(&params, &h.sig.output, &h.block, &args, None, false) {
                                            *e = x;
                                            self.used_helpers.push(s);
                                            self.depth += 1;
                                            self.hint = hint;
                                            self.visit_expr_mut(e);
                                            self.depth -= 1;
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                        if s == "Ok" || s == "Some" {
                            // Ok(<iter>.collect()): plain collect
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// string-literal patterns: `"a" | Some("b") => x` becomes one guarded arm per alternative
fn lower_str_arms(m: &mut ExprMatch) {
    struct H(Vec<(Ident, LitStr)>);
    impl VisitMut for H {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Lit(l) = p {
                if let Lit::Str(s) = &l.lit {
                    let v = id(&format!("vx_sp{}", self.0.len()));
                    self.0.push((v.clone(), s.clone()));
                    *p = parse_quote!(#v);
                    return;
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    let has = |p: &Pat| { let mut q = p.clone(); let mut h = H(vec![]); h.visit_pat_mut(&mut q); !h.0.is_empty() };
    if !m.arms.iter().any(|a| has(&a.pat)) { return; }
    let mut out = vec![];
    for a in &m.arms {
        let alts: Vec<Pat> = match &a.pat { Pat::Or(o) if has(&a.pat) => o.cases.iter().cloned().collect(), p => vec![p.clone()] };
        for mut p in alts {
            let mut h = H(vec![]);
            h.visit_pat_mut(&mut p);
            let mut b = a.clone();
            b.pat = p;
            for (v, l) in h.0 {
                let t: Expr = parse_quote!(vx_str_eq(#v, #l));
                b.guard = Some(match b.guard.take() { Some((k, g)) => (k, Box::new(parse_quote!(#t && (#g)))), None => (Default::default(), Box::new(t)) });
            }
            if b.comma.is_none() { b.comma = Some(Default::default()); }
            out.push(b);
        }
    }
    m.arms = out;
}
fn e_ref(m: &ExprMethodCall) -> &Expr {
    // `recv.map(..)` is an iterator stage iff recv is a pipe
    &m.receiver
}
fn deref_pat(p: &mut Pat, st: &mut Vec<Stmt>, next: &mut usize) {
    match p {
        Pat::TupleStruct(t) => {
            for q in t.elems.iter_mut() {
                deref_pat(q, st, next);
            }
        }
        Pat::Tuple(t) => {
            for q in t.elems.iter_mut() {
                deref_pat(q, st, next);
            }
        }
        Pat::Reference(r) => {
            if let Pat::Ident(x) = &*r.pat {
                *next += 1;
                let f = format_ident!("drT{}", *next);
                let n = x.ident.clone();
                st.push(parse_quote!(let #n = *#f;));
                *p = parse_quote!(#f);
            }
        }
        _ => {}
    }
}
/// `m.keys()`, possibly mapped to borrowed or cloned strings: the set of keys of a map
fn keys_of(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(m) = strip(e) {
        let n = m.method.to_string();
        if n == "keys" && m.args.is_empty() { return Some((*m.receiver).clone()); }
        if n == "cloned" && m.args.is_empty() { return keys_of(&m.receiver); }
        if n == "map" && m.args.len() == 1 && m.args[0].to_token_stream().to_string().replace(' ', "").trim_start_matches("|k|k.").trim_end_matches("()").trim_start_matches("String::") == "as_str" { return keys_of(&m.receiver); }
    }
    None
}
fn is_range_index(e: &Expr) -> bool { matches!(strip(e), Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_))) }
/// `b"..."` as an array of its bytes
pub fn byte_lit(e: &Expr) -> Option<Expr> {
    if let Expr::Lit(l) = strip(e) {
        if let Lit::ByteStr(b) = &l.lit {
            let v: Vec<LitInt> = b.value().iter().map(|x| LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site())).collect();
            return Some(parse_quote!([#(#v),*]));
        }
    }
    None
}
fn from_le(c: &ExprCall) -> Option<(Ident, Expr)> {
    let f = c.func.to_token_stream().to_string().replace(' ', "");
    let t = f.strip_suffix("::from_le_bytes")?;
    if !["u32", "u64", "i32", "i64", "f32", "f64"].contains(&t) { return None; }
    if let Expr::MethodCall(u) = strip(&c.args[0]) {
        if u.method == "unwrap" {
            if let Expr::MethodCall(m) = strip(&u.receiver) {
                if m.method == "try_into" { return Some((format_ident!("vx_from_le_{}", t), (*m.receiver).clone())); }
            }
        }
    }
    None
}
fn is_str_lit(e: &Expr) -> bool { matches!(strip(e), Expr::Lit(l) if matches!(l.lit, Lit::Str(_))) }
fn turbofish_kind(m: &ExprMethodCall) -> Option<Kind> {
    let t = m.turbofish.as_ref()?;
    match t.args.first()? {
        GenericArgument::Type(t) => type_kind(t),
        _ => None,
    }
}
fn turbofish_set(m: &ExprMethodCall) -> bool {
    m.turbofish.as_ref().and_then(|t| match t.args.first() {
        Some(GenericArgument::Type(t)) => Some(type_is_set(t)),
        _ => None,
    }).unwrap_or(false)
}

/// template and arguments (positional, then captured in order of appearance) of a format! call
fn fmt_parts(ts: &proc_macro2::TokenStream) -> Option<(syn::LitStr, Vec<Expr>)> {
    use syn::parse::Parser;
    let args = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(ts.clone()).ok()?;
    let mut it = args.into_iter();
    let t = match it.next()? {
        Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s,
        _ => return None,
    };
    let mut out: Vec<Expr> = it.collect();
    let v = t.value();
    let mut rest = v.as_str();
    while let Some(i) = rest.find('{') {
        let j = rest[i..].find('}')? + i;
        let inner = &rest[i + 1..j];
        if !inner.is_empty() {
            out.push(syn::parse_str::<Expr>(inner.split(':').next()?).ok()?);
        }
        rest = &rest[j + 1..];
    }
    Some((t, out))
}

thread_local! { pub static REAL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// `f64::max` / `f64::min`
fn fold_op(e: &Expr) -> Option<&'static str> {
    match tok(strip(e)).replace(' ', "").as_str() {
        "f64::max" => Some("max"),
        "f64::min" => Some("min"),
        _ => None,
    }
}
/// a decimal literal as a fraction of two integers
pub fn rational(f: &LitFloat) -> Option<(String, String)> {
    let s = f.base10_digits().to_lowercase();
    let (m, x) = match s.split_once('e') { Some((a, b)) => (a.to_string(), b.parse::<i32>().ok()?), None => (s.clone(), 0) };
    let (i, fr) = match m.split_once('.') { Some((a, b)) => (a.to_string(), b.to_string()), None => (m.clone(), String::new()) };
    let digits = format!("{i}{fr}");
    let mut n: i128 = digits.parse().ok()?;
    let mut d: i128 = 1;
    let e = x - fr.len() as i32;
    if e >= 0 { for _ in 0..e { n = n.checked_mul(10)?; } } else { for _ in 0..-e { d = d.checked_mul(10)?; } }
    while n % 10 == 0 && d % 10 == 0 && n != 0 { n /= 10; d /= 10; }
    if n == 0 { d = 1; }
    if n > i64::MAX as i128 || d > i64::MAX as i128 { return None; }
    Some((format!("{n}"), format!("{d}")))
}
fn float_evidence(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_lit_float(&mut self, _: &'a LitFloat) { self.0 = true; }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if matches!(m.method.to_string().as_str(), "abs" | "sqrt" | "exp" | "ln" | "powf") { self.0 = true; }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_cast(&mut self, c: &'a ExprCast) {
            if matches!(tok(&c.ty).as_str(), "f64" | "f32") { self.0 = true; }
            syn::visit::visit_expr_cast(self, c);
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
/// a float expression as a real-valued specification term
fn real_expr(e: &Expr) -> Option<String> {
    Some(match e {
        Expr::Paren(p) => format!("({})", real_expr(&p.expr)?),
        Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => { let (n, d) = rational(f)?; format!("({n}real / {d}real)") }
        Expr::Path(_) => format!("({}).r()", tok(e)),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => format!("(*{}).r()", spec_expr(&u.expr)?),
        Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => format!("(-{})", real_expr(&u.expr)?),
        Expr::Index(_) => format!("{}.r()", spec_expr(e)?),
        Expr::Cast(c) if matches!(tok(&c.ty).as_str(), "f64" | "f32") => format!("({}).tr()", spec_expr(&c.expr)?),
        Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) => format!("({} {} {})", real_expr(&b.left)?, tok(&b.op), real_expr(&b.right)?),
        Expr::MethodCall(m) if m.args.is_empty() && matches!(m.method.to_string().as_str(), "abs" | "sqrt" | "exp" | "ln") => format!("vr_{}({})", m.method, real_expr(&m.receiver)?),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(e, None) => real_expr(e)?, _ => return None },
        _ => return None,
    })
}
/// lambda lifting: `let name = |args| body;` at the top level of a function becomes a function whose
/// extra parameters are the enclosing parameters the body mentions
pub fn lift(item: &ItemFn, name: &str, ret: Option<&str>) -> Option<ItemFn> {
    for s in &item.block.stmts {
        if let Stmt::Local(l) = s {
            if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                if p.ident == name {
                    if let Expr::Closure(c) = strip(&init.expr) {
                        let mut params: Vec<FnArg> = vec![];
                        for i in &c.inputs {
                            match i { Pat::Type(t) => params.push(FnArg::Typed(t.clone())), _ => return None }
                        }
                        for (n, t, _) in captures(item, c) { let i = id(&n); params.push(parse_quote!(#i: #t)); }
                        let out: ReturnType = match (&c.output, ret) {
                            (ReturnType::Default, Some(t)) => { let t: Type = parse_str(t).ok()?; parse_quote!(-> #t) }
                            (o, _) => o.clone(),
                        };
                        let b: Block = match strip(&c.body) { Expr::Block(b) => b.block.clone(), o => parse_quote!({ #o }) };
                        let f = format_ident!("{}__{}", item.sig.ident, name);
                        return Some(parse_quote!(pub fn #f(#(#params),*) #out #b));
                    }
                }
            }
        }
    }
    None
}
fn captures(item: &ItemFn, c: &ExprClosure) -> Vec<(String, Type, Expr)> {
    struct V(std::collections::HashSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_ident(&mut self, i: &'a Ident) { self.0.insert(i.to_string()); }
        fn visit_macro(&mut self, m: &'a Macro) {
            fn go(t: proc_macro2::TokenStream, s: &mut std::collections::HashSet<String>) {
                for x in t { match x { proc_macro2::TokenTree::Ident(i) => { s.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => go(g.stream(), s), _ => {} } }
            }
            go(m.tokens.clone(), &mut self.0);
        }
    }
    let mut v = V(Default::default());
    syn::visit::Visit::visit_expr(&mut v, &c.body);
    let mut out = vec![];
    for a in &item.sig.inputs {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(p) = &*t.pat {
                let n = p.ident.to_string();
                if !v.0.contains(&n) { continue; }
                let i = &p.ident;
                let (ty, ex): (Type, Expr) = match &*t.ty {
                    Type::Reference(r) if r.mutability.is_some() => { let e = &r.elem; (parse_quote!(&#e), parse_quote!(&*#i)) }
                    ty => (ty.clone(), parse_quote!(#i)),
                };
                out.push((n, ty, ex));
            }
        }
    }
    out
}
/// replace the calls of lifted closures and drop their definitions
pub fn apply_lift(root: &ItemFn, item: &mut ItemFn, names: &[String]) {
    struct R<'a>(&'a ItemFn, &'a [String], HashMap<String, Vec<Expr>>);
    impl VisitMut for R<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = strip(&c.func) {
                    if let Some(n) = p.path.get_ident().map(|i| i.to_string()) {
                        if let Some(x) = self.2.get(&n) {
                            let f = format_ident!("{}__{}", self.0.sig.ident, n);
                            let a = &c.args;
                            let mut args: Vec<Expr> = a.iter().cloned().collect();
                            args.extend(x.clone());
                            *e = parse_quote!(#f(#(#args),*));
                        }
                    }
                }
            }
        }
    }
    let mut r = R(root, names, HashMap::new());
    let is = |s: &Stmt, n: &str| matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == n) && l.init.as_ref().is_some_and(|i| matches!(strip(&i.expr), Expr::Closure(_))));
    for n in names {
        for s in &root.block.stmts {
            if is(s, n) {
                if let Stmt::Local(l) = s { if let Expr::Closure(c) = strip(&l.init.as_ref().unwrap().expr) { r.2.insert(n.clone(), captures(root, c).into_iter().map(|x| x.2).collect()); } }
            }
        }
    }
    let gone: Vec<String> = r.2.keys().cloned().collect();
    item.block.stmts.retain(|s| !gone.iter().any(|n| is(s, n)));
    r.visit_block_mut(&mut item.block);
}

/// the rest of a loop body from `let x = <long expression>;` on becomes one call of an assumed function, which
/// may change only what the call takes by `&mut`. Refused when the replaced statements could change anything
/// else outside themselves, or end more than the current iteration.
pub fn opaque(item: &mut ItemFn, name: &str, call: &str, min: usize) -> std::result::Result<(), String> {
    let call: Expr = parse_str(call).map_err(|e| e.to_string())?;
    struct Muts(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for Muts {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { if p.mutability.is_some() { self.0.push(p.ident.to_string()); } syn::visit::visit_pat_ident(self, p); }
    }
    struct Find<'a> { name: &'a str, min: usize, hit: Vec<Stmt>, with: &'a Expr, n: usize }
    impl Find<'_> {
        fn body(&mut self, b: &mut Block) {
            let at = b.stmts.iter().position(|s| match s {
                Stmt::Local(l) => {
                    let named = match &l.pat { Pat::Ident(p) => p.ident == self.name, Pat::Type(t) => matches!(&*t.pat, Pat::Ident(p) if p.ident == self.name), _ => false };
                    l.init.as_ref().is_some_and(|i| i.diverge.is_none() && (named || tok(&i.expr).len() > self.min))
                }
                _ => false,
            });
            if let Some(k) = at {
                self.n += 1;
                self.hit = b.stmts.split_off(k);
                let w = self.with;
                b.stmts.push(parse_quote!(#w?;));
            }
        }
    }
    impl VisitMut for Find<'_> {
        fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) { self.body(&mut l.body); visit_mut::visit_expr_for_loop_mut(self, l); }
    }
    let mut f = Find { name, min, hit: vec![], with: &call, n: 0 };
    f.visit_block_mut(&mut item.block);
    if f.n != 1 { return Err(format!("opaque {name}: {} places", f.n)); }
    let e: Expr = { let h = &f.hit; parse_quote!({ #(#h)* }) };
    // outer mutable names: those bound outside the replaced statements, except what the call may change
    let mut m = Muts(vec![]);
    syn::visit::Visit::visit_item_fn(&mut m, item);
    for a in &item.sig.inputs { if let FnArg::Typed(t) = a { if let (Pat::Ident(p), Type::Reference(r)) = (&*t.pat, &*t.ty) { if r.mutability.is_some() { m.0.push(p.ident.to_string()); } } } }
    let mut target = String::new();
    if let Expr::Call(c) = strip(&call) {
        for x in &c.args { if let Expr::Reference(r) = x { if r.mutability.is_some() { target = tok(&r.expr); } } }
    }
    // what the call may change is only written by `insert` under names taken from a list of outputs
    struct Outs(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for Outs {
        fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
            struct B<'b>(&'b mut Vec<String>);
            impl<'c> syn::visit::Visit<'c> for B<'_> { fn visit_pat_ident(&mut self, p: &'c PatIdent) { self.0.push(p.ident.to_string()); } }
            if tok(&l.expr).split(|c: char| !c.is_alphanumeric()).any(|w| w == "outputs") { syn::visit::Visit::visit_pat(&mut B(&mut self.0), &l.pat); }
            syn::visit::visit_expr_for_loop(self, l);
        }
    }
    let mut outs = Outs(vec![]);
    syn::visit::Visit::visit_expr(&mut outs, &e);
    struct Pure<'a> { muts: &'a [String], target: &'a str, outs: &'a [String], bad: Option<String>, depth: usize, clo: usize }
    impl Pure<'_> {
        fn root(&self, e: &Expr) -> bool {
            match strip(e) {
                Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.muts.iter().any(|m| i == m)),
                Expr::Field(f) => self.root(&f.base), Expr::Index(i) => self.root(&i.expr), Expr::Unary(u) => self.root(&u.expr), Expr::MethodCall(c) => self.root(&c.receiver), _ => false,
            }
        }
    }
    impl<'a> syn::visit::Visit<'a> for Pure<'_> {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Assign(a) if self.root(&a.left) => self.bad = Some(tok(a)),
                Expr::Binary(b) if tok(&b.op).ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_)) && self.root(&b.left) => self.bad = Some(tok(b)),
                Expr::Reference(r) if r.mutability.is_some() && self.root(&r.expr) => self.bad = Some(tok(r)),
                Expr::MethodCall(c) if c.method == "insert" && tok(&c.receiver) == self.target && c.args.first().is_some_and(|a| self.outs.iter().any(|o| tok(a).replace(' ', "") == format!("{o}.clone()"))) => {}
                Expr::MethodCall(c) if matches!(strip(&c.receiver), Expr::Path(_) | Expr::Field(_)) && self.root(&c.receiver) && !matches!(c.method.to_string().as_str(), "get" | "contains_key" | "len" | "iter" | "keys" | "values" | "is_empty" | "clone") => self.bad = Some(tok(c)),
                Expr::Return(_) if self.clo == 0 => self.bad = Some("return".into()),
                Expr::Break(_) if self.depth == 0 => self.bad = Some("loop exit".into()),
                Expr::Break(ExprBreak { label: Some(_), .. }) | Expr::Continue(ExprContinue { label: Some(_), .. }) => self.bad = Some("labelled exit".into()),
                Expr::Unsafe(_) => self.bad = Some("unsafe".into()),
                _ => {}
            }
            let l = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
            let c = matches!(e, Expr::Closure(_));
            self.depth += l as usize; self.clo += c as usize;
            syn::visit::visit_expr(self, e);
            self.depth -= l as usize; self.clo -= c as usize;
        }
    }
    let mut p = Pure { muts: &m.0, target: &target, outs: &outs.0, bad: None, depth: 0, clo: 0 };
    syn::visit::Visit::visit_expr(&mut p, &e);
    match p.bad { Some(b) => Err(format!("opaque {name}: changes more than its own result: {b}")), None => Ok(()) }
}
/// `if c { continue; } rest` and `let P = e else { continue; }; rest` at the top of a loop body become nested branches,
/// so that every path reaches the end of the body
pub struct NoContinue;
fn only_continue(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none()) }
fn is_continue(e: &Expr) -> bool {
    match strip(e) { Expr::Continue(c) => c.label.is_none(), Expr::Block(b) if b.label.is_none() => b.block.stmts.len() == 1 && only_continue(&b.block), _ => false }
}
fn nest_continue(st: &[Stmt]) -> Vec<Stmt> {
    let mut out = vec![];
    for (i, s) in st.iter().enumerate() {
        let rest = || nest_continue(&st[i + 1..]);
        match s {
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && only_continue(&f.then_branch) => {
                let r = rest();
                let pre = &f.then_branch.stmts[..f.then_branch.stmts.len() - 1];
                let c = &f.cond;
                let plain = !has_let(c);
                out.push(if pre.is_empty() && plain {
                    let n = negate(c);
                    parse_quote!(if #n { #(#r)* })
                } else {
                    parse_quote!(if #c { #(#pre)* } else { #(#r)* })
                });
                return out;
            }
            // `if c { ..; continue; } else { b } rest`, `if c { a } else { ..; continue; } rest`
            Stmt::Expr(Expr::If(f), _) if !has_let(&f.cond) && matches!(f.else_branch.as_ref().map(|x| strip(&x.1)), Some(Expr::Block(b)) if only_continue(&b.block) != only_continue(&f.then_branch)) => {
                let r = rest();
                let (c, a) = (&f.cond, &f.then_branch.stmts);
                let b = match strip(&f.else_branch.as_ref().unwrap().1) { Expr::Block(b) => &b.block.stmts, _ => unreachable!() };
                let cut = |v: &Vec<Stmt>| v[..v.len() - 1].to_vec();
                out.push(if only_continue(&f.then_branch) { let a = cut(a); parse_quote!(if #c { #(#a)* } else { { #(#b)* } #(#r)* }) } else { let b = cut(b); parse_quote!(if #c { { #(#a)* } #(#r)* } else { #(#b)* }) });
                return out;
            }
            // a match of which every case but one, which binds nothing, ends the iteration
            Stmt::Expr(Expr::Match(m), _) if one_goes_on(m) => {
                let r = rest();
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let body = (*a.body).clone();
                    *a.body = match (ends(&body), strip(&body)) {
                        (true, Expr::Block(b)) => { let p = &b.block.stmts[..b.block.stmts.len() - 1]; parse_quote!({ #(#p)* }) }
                        (true, _) => parse_quote!({}),
                        (false, Expr::Block(b)) if b.block.stmts.is_empty() => parse_quote!({ #(#r)* }),
                        (false, Expr::Tuple(t)) if t.elems.is_empty() => parse_quote!({ #(#r)* }),
                        (false, o) => parse_quote!({ #o; #(#r)* }),
                    };
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return out;
            }
            Stmt::Local(l) => {
                if let Some(init) = &l.init {
                    let (p, e) = (&l.pat, &init.expr);
                    if let Some((_, d)) = &init.diverge {
                        if let Expr::Block(b) = strip(d) {
                            if only_continue(&b.block) {
                                let r = rest();
                                let pre = &b.block.stmts[..b.block.stmts.len() - 1];
                                out.push(if pre.is_empty() { parse_quote!(if let #p = #e { #(#r)* }) } else { parse_quote!(if let #p = #e { #(#r)* } else { #(#pre)* }) });
                                return out;
                            }
                        }
                    } else if let Expr::Match(m) = strip(e) {
                        if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) && m.arms.iter().filter(|a| is_continue(&a.body)).count() == 1 {
                            let r = rest();
                            let a = m.arms.iter().find(|a| !is_continue(&a.body)).unwrap();
                            let (ap, ab, sc) = (&a.pat, &a.body, &m.expr);
                            let same = matches!((p, strip(ab)), (Pat::Ident(x), Expr::Path(y)) if y.path.get_ident() == Some(&x.ident));
                            out.push(if same { parse_quote!(if let #ap = #sc { #(#r)* }) } else { parse_quote!(if let #ap = #sc { let #p = #ab; #(#r)* }) });
                            return out;
                        }
                    }
                }
                out.push(s.clone());
            }
            _ => out.push(s.clone()),
        }
    }
    out
}
fn ends(e: &Expr) -> bool { match strip(e) { Expr::Continue(c) => c.label.is_none(), Expr::Block(b) => b.label.is_none() && only_continue(&b.block), _ => false } }
fn one_goes_on(m: &ExprMatch) -> bool {
    struct Binds(bool);
    impl<'a> syn::visit::Visit<'a> for Binds { fn visit_pat_ident(&mut self, p: &'a PatIdent) { if !p.ident.to_string().starts_with(char::is_uppercase) { self.0 = true; } } }
    let on: Vec<_> = m.arms.iter().filter(|a| !ends(&a.body)).collect();
    if on.len() != 1 || m.arms.len() < 2 || m.arms.iter().any(|a| a.guard.is_some()) { return false; }
    let mut b = Binds(false);
    syn::visit::Visit::visit_pat(&mut b, &on[0].pat);
    !b.0
}
fn has_let(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V { fn visit_expr_let(&mut self, _: &'a ExprLet) { self.0 = true; } }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
fn negate(e: &Expr) -> Expr {
    match strip(e) {
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
        Expr::Binary(b) => {
            let (l, r) = (&b.left, &b.right);
            match b.op {
                BinOp::Eq(_) => parse_quote!(#l != #r),
                BinOp::Ne(_) => parse_quote!(#l == #r),
                _ => parse_quote!(!(#e)),
            }
        }
        _ => parse_quote!(!(#e)),
    }
}
impl VisitMut for NoContinue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let b = match e { Expr::ForLoop(f) => &mut f.body, Expr::While(w) => &mut w.body, Expr::Loop(l) => &mut l.body, _ => return };
        b.stmts = nest_continue(&b.stmts);
    }
}
