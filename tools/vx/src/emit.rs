use crate::contract::*;
use crate::desugar::*;
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use std::result::Result;
use syn::*;

struct TypeFix;
impl VisitMut for TypeFix {
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        visit_mut::visit_type_path_mut(self, p);
        fix_path(&mut p.path);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}
fn fix_path(p: &mut Path) {
    if let Some(s) = p.segments.last() {
        if s.ident == "Result" {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if a.args.len() == 1 && p.segments.len() <= 2 {
                    let t = &a.args[0];
                    *p = parse_quote!(Result<#t, VErr>);
                }
            }
        }
    }
}
struct AttrStrip;
impl VisitMut for AttrStrip {
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) { i.attrs.clear(); visit_mut::visit_item_fn_mut(self, i); }
    fn visit_local_mut(&mut self, i: &mut Local) { i.attrs.clear(); visit_mut::visit_local_mut(self, i); }
    fn visit_field_mut(&mut self, i: &mut Field) { i.attrs.clear(); i.vis = parse_quote!(pub); }
    fn visit_variant_mut(&mut self, i: &mut Variant) { i.attrs.clear(); for f in i.fields.iter_mut() { f.attrs.clear(); } }
    fn visit_expr_block_mut(&mut self, i: &mut ExprBlock) { i.attrs.clear(); visit_mut::visit_expr_block_mut(self, i); }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) { i.attrs.clear(); visit_mut::visit_expr_if_mut(self, i); }
}
pub struct Source {
    file: File,
}
fn load(repo: &str, f: &str, macros: Option<&str>, cache: &mut HashMap<String, Source>) -> Result<(), String> {
    if !cache.contains_key(f) {
        let path = match f.strip_prefix("@gen/") { Some(x) => format!("{}/{x}", std::env::var("VX_GEN").unwrap_or_default()), None => format!("{repo}/{f}") };
        let t = std::fs::read_to_string(path).map_err(|e| format!("lost-anchor {f}: {e}"))?;
        let mut file = syn::parse_file(&t).map_err(|e| format!("parse {f}: {e}"))?;
        if let Some(d) = macros {
            let mut defs = file.items.clone();
            if let Ok(t) = std::fs::read_to_string(format!("{repo}/{d}")) { defs.extend(syn::parse_file(&t).map_err(|e| format!("parse {d}: {e}"))?.items); }
            expand_macros(&mut file.items, &defs);
        }
        cache.insert(f.to_string(), Source { file });
    }
    Ok(())
}
fn norm(t: &impl ToTokens) -> String { t.to_token_stream().to_string().replace(' ', "") }
/// find fn by path: `name`, `Type::name`, `Type as Trait::name`, `mod m::name`
fn find_fn(items: &[Item], path: &str) -> Option<(Option<String>, ItemFn)> {
    if let Some((ty, name)) = path.rsplit_once("::") {
        if let Some(m) = ty.strip_prefix("mod ") {
            for it in items {
                if let Item::Mod(mm) = it {
                    if mm.ident == m {
                        return find_fn(&mm.content.as_ref()?.1, name);
                    }
                }
            }
            return None;
        }
        let (ty, tr) = match ty.split_once(" as ") { Some((a, b)) => (a.trim(), Some(b.trim().replace(' ', ""))), None => (ty.trim(), None) };
        for it in items {
            if let Item::Impl(im) = it {
                let t = norm(&im.self_ty);
                let tb = t.split('<').next().unwrap().to_string();
                if t != ty.replace(' ', "") && tb != ty { continue; }
                let trn = im.trait_.as_ref().map(|(_, p, _)| norm(p));
                if let Some(want) = &tr { if trn.as_deref() != Some(want) { continue; } } 
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        if f.sig.ident == name {
                            return Some((Some(norm(&im.self_ty)), ItemFn { attrs: vec![], vis: parse_quote!(pub), sig: f.sig.clone(), block: Box::new(f.block.clone()) }));
                        }
                    }
                }
            }
            if let Item::Trait(t) = it {
                if t.ident == ty {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            if f.sig.ident == name {
                                if let Some(b) = &f.default {
                                    return Some((Some(ty.to_string()), ItemFn { attrs: vec![], vis: parse_quote!(pub), sig: f.sig.clone(), block: Box::new(b.clone()) }));
                                }
                            }
                        }
                    }
                }
            }
        }
        return None;
    }
    for it in items {
        if let Item::Fn(f) = it {
            if f.sig.ident == path {
                return Some((None, f.clone()));
            }
        }
    }
    None
}
/// a method as a function of its own: the receiver becomes the parameter `this`, `Self` the type's name, and
/// reader / writer parameters passed by value (always `&mut` of something) are passed as `&mut`
fn to_free(items: &[Item], path: &str, mut f: ItemFn) -> Option<ItemFn> {
    let (ty, _) = path.rsplit_once("::")?;
    let ty = ty.split(" as ").next().unwrap().replace(' ', "");
    let im = items.iter().find_map(|it| match it { Item::Impl(im) if (norm(&im.self_ty) == ty || norm(&im.self_ty).split('<').next() == Some(&ty)) && im.items.iter().any(|x| matches!(x, ImplItem::Fn(g) if g.sig.ident == f.sig.ident && g.block == *f.block)) => Some(im), _ => None })?;
    let selfty = (*im.self_ty).clone();
    let mut by: Vec<String> = vec![];
    for g in f.sig.generics.type_params() {
        let t = g.bounds.to_token_stream().to_string();
        if t.ends_with("Write") || t.ends_with("Read") { by.push(g.ident.to_string()); }
    }
    let mut names: Vec<String> = vec![];
    for a in f.sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => { let t: FnArg = match (&r.reference, &r.mutability) { (Some(_), None) => parse_quote!(this: &#selfty), (Some(_), Some(_)) => parse_quote!(this: &mut #selfty), _ => parse_quote!(this: #selfty) }; *a = t; }
            FnArg::Typed(t) => {
                let n = t.ty.to_token_stream().to_string();
                if by.contains(&n) {
                    if let Pat::Ident(p) = &mut *t.pat { p.mutability = None; names.push(p.ident.to_string()); }
                    let ty = (*t.ty).clone();
                    *t.ty = parse_quote!(&mut #ty);
                }
            }
        }
    }
    struct Fr { ty: Type, names: Vec<String> }
    impl VisitMut for Fr {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Reference(r) = e { if r.mutability.is_some() { if let Expr::Path(p) = &*r.expr { if let Some(i) = p.path.get_ident() { if self.names.contains(&i.to_string()) { *e = (*r.expr).clone(); return; } } } } }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            fn ren(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
                use proc_macro2::{Group, TokenTree};
                ts.into_iter().map(|t| match t {
                    TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("this", i.span())),
                    TokenTree::Group(g) => { let mut h = Group::new(g.delimiter(), ren(g.stream())); h.set_span(g.span()); TokenTree::Group(h) }
                    t => t,
                }).collect()
            }
            m.tokens = ren(m.tokens.clone());
        }
        fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { *i = Ident::new("this", i.span()); } }
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t { if p.path.is_ident("Self") { *t = self.ty.clone(); return; } }
            visit_mut::visit_type_mut(self, t);
        }
        fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
            let n = e.path.segments.len();
            visit_mut::visit_expr_path_mut(self, e);
            if let Some(q) = &mut e.qself { q.position = q.position.saturating_sub(n.saturating_sub(e.path.segments.len())); }
        }
        fn visit_path_mut(&mut self, p: &mut Path) {
            visit_mut::visit_path_mut(self, p);
            // the contract file is one crate: `::serdes::X` and `std::io::X` are `X`
            let cut = if p.leading_colon.is_some() && p.segments.len() > 1 { 1 } else if p.segments.len() > 2 && p.segments[0].ident == "std" && p.segments[1].ident == "io" { 2 } else { 0 };
            if cut > 0 { p.leading_colon = None; p.segments = p.segments.iter().skip(cut).cloned().collect(); }
            if p.segments.first().map(|s| s.ident == "Self").unwrap_or(false) {
                if let Type::Path(tp) = &self.ty {
                    let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                    let mut q = tp.path.clone();
                    if !rest.is_empty() { if let Some(l) = q.segments.last_mut() { if let PathArguments::AngleBracketed(a) = &mut l.arguments { a.colon2_token = Some(Default::default()); } } }
                    for r in rest { q.segments.push(r); }
                    *p = q;
                }
            }
        }
    }
    let mut v = Fr { ty: selfty, names };
    v.visit_block_mut(&mut f.block);
    if let ReturnType::Type(_, t) = &mut f.sig.output { v.visit_type_mut(t); }
    let own: Vec<GenericParam> = f.sig.generics.params.iter().cloned().collect();
    f.sig.generics.params = im.generics.params.iter().cloned().chain(own).collect();
    v.visit_generics_mut(&mut f.sig.generics);
    if let Some(w) = &im.generics.where_clause { let o = f.sig.generics.make_where_clause(); o.predicates.extend(w.predicates.iter().cloned()); }
    f.attrs.clear();
    Some(f)
}
/// item-position invocations of simple declarative macros (one rule, plain fragments) are replaced by their expansion
fn expand_macros(items: &mut Vec<Item>, defs: &[Item]) {
    use proc_macro2::{TokenStream, TokenTree, Group};
    fn subst(ts: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut o: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < v.len() {
            match (&v[i], v.get(i + 1)) {
                (TokenTree::Punct(p), Some(TokenTree::Ident(n))) if p.as_char() == '$' && m.contains_key(&n.to_string()) => { o.extend(m[&n.to_string()].clone()); i += 2; continue; }
                (TokenTree::Group(g), _) => { let mut h = Group::new(g.delimiter(), subst(g.stream(), m)); h.set_span(g.span()); o.push(TokenTree::Group(h)); }
                (t, _) => o.push(t.clone()),
            }
            i += 1;
        }
        o.into_iter().collect()
    }
    fn expand(im: &ItemMacro, defs: &[Item]) -> Option<Vec<Item>> {
        let name = im.mac.path.segments.last()?.ident.to_string();
        let d = defs.iter().find_map(|x| match x { Item::Macro(d) if d.ident.as_ref().map(|i| *i == name).unwrap_or(false) => Some(d), _ => None })?;
        let t: Vec<TokenTree> = d.mac.tokens.clone().into_iter().collect();
        let gs: Vec<&Group> = t.iter().filter_map(|x| match x { TokenTree::Group(g) => Some(g), _ => None }).collect();
        if gs.len() != 2 { return None; }
        let mut params = vec![];
        let pt: Vec<TokenTree> = gs[0].stream().into_iter().collect();
        for w in pt.windows(2) { if let (TokenTree::Punct(p), TokenTree::Ident(n)) = (&w[0], &w[1]) { if p.as_char() == '$' { params.push(n.to_string()); } } }
        let mut args: Vec<TokenStream> = vec![TokenStream::new()];
        for x in im.mac.tokens.clone() { match &x { TokenTree::Punct(p) if p.as_char() == ',' => args.push(TokenStream::new()), _ => args.last_mut()?.extend([x]) } }
        if args.len() != params.len() { return None; }
        let m: HashMap<String, TokenStream> = params.into_iter().zip(args).collect();
        syn::parse2::<File>(subst(gs[1].stream(), &m)).ok().map(|f| f.items)
    }
    let old = std::mem::take(items);
    for it in old {
        if let Item::Macro(im) = &it { if im.ident.is_none() { if let Some(x) = expand(im, defs) { items.extend(x); continue; } } }
        items.push(it);
    }
}
fn all_fns(items: &[Item]) -> Vec<ItemFn> {
    items.iter().filter_map(|i| match i { Item::Fn(f) => Some(f.clone()), _ => None }).collect()
}
fn find_item(items: &[Item], name: &str) -> Option<Item> {
    for it in items {
        let id = match it {
            Item::Struct(s) => &s.ident,
            Item::Enum(s) => &s.ident,
            Item::Const(s) => &s.ident,
            Item::Static(s) => &s.ident,
            Item::Type(s) => &s.ident,
            Item::Mod(m) => {
                if let Some((_, c)) = &m.content {
                    if m.ident != "tests" {
                        if let Some(x) = find_item(c, name) { return Some(x); }
                    }
                }
                continue;
            }
            _ => continue,
        };
        if id == name { return Some(it.clone()); }
    }
    None
}
fn indent(s: &str, by: &str) -> String { s.lines().map(|l| format!("{by}{l}\n")).collect() }

pub fn run(repo: &str, c: &Contract, assume: &[String]) -> Result<(String, String), String> {
    let mut cache: HashMap<String, Source> = HashMap::new();
    let mut out = String::from("// generated by vx from /repo; do not edit\n#![allow(unused, non_snake_case, unused_parens, unused_braces, unused_mut, dead_code, non_camel_case_types)]\nuse vstd::prelude::*;\nuse std::collections::{HashMap, HashSet};\nverus! {\n");
    let mut rep: Vec<String> = vec![];
    let contracted: HashSet<String> = c.secs.iter().filter_map(|s| match s { Sec::Fn(f) => Some(f.path.clone()), _ => None }).collect();
    for s in &c.secs {
        match s {
            Sec::Raw(t) => { out.push_str(t); out.push('\n'); }
            Sec::Item { file, name, opts } => {
                load(repo, file, c.opts.get("macros").map(|x| x.as_str()), &mut cache)?;
                let mut it = find_item(&cache[file].file.items, name).ok_or_else(|| format!("lost-anchor item {file}::{name}"))?;
                AttrStrip.visit_item_mut(&mut it);
                TypeFix.visit_item_mut(&mut it);
                if opts.contains_key("bare") {
                    // bounds on a type's own parameters say nothing about its values
                    if let Some(g) = match &mut it { Item::Struct(s) => Some(&mut s.generics), Item::Enum(s) => Some(&mut s.generics), _ => None } {
                        g.where_clause = None;
                        for t in g.type_params_mut() { t.bounds.clear(); t.colon_token = None; }
                    }
                }
                match &mut it {
                    Item::Struct(s) => { s.attrs.clear(); s.vis = parse_quote!(pub); }
                    Item::Enum(s) => { s.attrs.clear(); s.vis = parse_quote!(pub); }
                    Item::Const(s) => {
                        s.attrs.clear();
                        s.vis = parse_quote!(pub);
                        if let Type::Reference(r) = &mut *s.ty { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } }
                        if let Expr::Unary(u) = &*s.expr { if let (UnOp::Deref(_), Some(b)) = (u.op, byte_lit(&u.expr)) { *s.expr = b; } }
                    }
                    Item::Static(s) => { s.attrs.clear(); s.vis = parse_quote!(pub); }
                    Item::Type(s) => { s.attrs.clear(); s.vis = parse_quote!(pub); }
                    _ => {}
                }
                if let Some(t) = str_table(&it) {
                    out.push_str(&t);
                    rep.push(format!("{{\"item\": \"{file}::{name}\"}}"));
                    continue;
                }
                let t = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![it] });
                if let Some(d) = opts.get("derive") { out.push_str(&format!("#[derive({d})]\n")); }
                out.push_str(&rename(&t, c));
                rep.push(format!("{{\"item\": \"{file}::{name}\"}}"));
            }
            Sec::Fn(f) => {
                if f.path.contains("@:") { continue; }
                let id = format!("{}::{}", f.file, f.path);
                if let Err(e) = load(repo, &f.file, c.opts.get("macros").map(|x| x.as_str()), &mut cache) {
                    rep.push(format!("{{\"fn\": \"{id}\", \"lost\": {e:?}}}"));
                    continue;
                }
                let items = &cache[&f.file].file.items;
                let (base, clo) = match f.path.split_once('@') { Some((a, b)) => (a.to_string(), Some(b.to_string())), None => (f.path.clone(), None) };
                let found = find_fn(items, &base).and_then(|(t, i)| {
                    let lifts: Vec<String> = f.opts.get("lift").map(|v| v.split_whitespace().map(String::from).collect()).unwrap_or_default();
                    let root = i.clone();
                    let mut j = match &clo { Some(n) => lift(&i, n, f.opts.get("clret").map(|s| s.as_str()))?, None => i };
                    apply_lift(&root, &mut j, &lifts);
                    Some((t, j))
                });
                let found = match (found, f.opts.contains_key("free")) { (Some((_, i)), true) => to_free(items, &base, i).map(|i| (None, i)), (x, _) => x };
                let (ty, item) = match found {
                    Some(x) => x,
                    None => { rep.push(format!("{{\"fn\": \"{id}\", \"lost\": \"no such function\"}}")); continue; }
                };
                let mut work: Vec<(FnC, ItemFn)> = vec![];
                if f.opts.contains_key("arms") {
                    let subs: Vec<&FnC> = c.secs.iter().filter_map(|s| match s { Sec::Fn(x) if x.file == f.file && x.path.starts_with(&format!("{}@:", f.path)) => Some(x), _ => None }).collect();
                    match split_arms(f, &item, &subs) {
                        Ok(w) => {
                            for x in &subs { if !w.iter().any(|(g, _)| g.path == x.path) { rep.push(format!("{{\"fn\": \"{}::{}\", \"lost\": \"no such case\"}}", x.file, x.path)); } }
                            work = w;
                        }
                        Err(e) => { rep.push(format!("{{\"fn\": \"{id}\", \"lost\": {e:?}}}")); continue; }
                    }
                } else { work.push((f.clone(), item)); }
                for (f, item) in work {
                let f = &f;
                let id = format!("{}::{}", f.file, f.path);
                let mut helpers = HashMap::new();
                for h in all_fns(items) {
                    let n = h.sig.ident.to_string();
                    if !contracted.contains(&n) && !c.stubs.contains(&n) && h.sig.ident != item.sig.ident {
                        let mut h = h;
                        AttrStrip.visit_item_fn_mut(&mut h);
                        helpers.insert(n, h);
                    }
                }
                if f.opts.contains_key("stub") {
                    let (text, _, _) = emit_fn(c, f, ty.as_deref(), item, HashMap::new(), true)?;
                    out.push_str(&text);
                    rep.push(format!("{{\"stub\": \"{id}\", \"by\": {:?}}}", f.opts["stub"]));
                    continue;
                }
                let first = if assume.contains(&id) { Err("requested".to_string()) } else { emit_fn(c, f, ty.as_deref(), item.clone(), helpers, false) };
                match first {
                    Ok((text, loops, used)) => {
                        out.push_str(&text);
                        let l: Vec<String> = loops.iter().map(|x| format!("\"{x}\"")).collect();
                        let u: Vec<String> = used.iter().map(|x| format!("\"{x}\"")).collect();
                        rep.push(format!("{{\"fn\": \"{id}\", \"loops\": [{}], \"inlined\": [{}]}}", l.join(","), u.join(",")));
                    }
                    Err(e) => {
                        let (text, _, _) = emit_fn(c, f, ty.as_deref(), item, HashMap::new(), true)?;
                        out.push_str(&text);
                        rep.push(format!("{{\"fn\": \"{id}\", \"assumed\": {e:?}}}"));
                    }
                }
                }
            }
        }
    }
    out.push_str("} // verus!\nfn main() {}\n");
    Ok((out, format!("[{}]\n", rep.join(",\n"))))
}
/// the cases of a function whose body is one `match` become functions of their own, under the function's
/// contract and the case's pattern; the function itself dispatches to them
fn split_arms(f: &FnC, item: &ItemFn, subs: &[&FnC]) -> Result<Vec<(FnC, ItemFn)>, String> {
    let mut whole = item.clone();
    AttrStrip.visit_item_fn_mut(&mut whole);
    if whole.block.stmts.len() != 1 { return Err("the body is not a single match".into()); }
    let params: Vec<Ident> = item.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => match &*t.pat { Pat::Ident(p) => Some(p.ident.clone()), _ => None }, _ => None }).collect();
    if params.len() != item.sig.inputs.len() { return Err("receiver or pattern parameter".into()); }
    let m = match whole.block.stmts.last_mut() { Some(Stmt::Expr(Expr::Match(m), None)) => m, _ => return Err("the body is not a single match".into()) };
    let scrut = tok(&m.expr);
    let mut out = vec![];
    for arm in m.arms.iter_mut() {
        if arm.guard.is_some() { return Err("guarded case".into()); }
        let mut names = vec![];
        fn pats(p: &Pat, o: &mut Vec<String>) -> bool {
            match p {
                Pat::Or(x) => x.cases.iter().all(|c| pats(c, o)),
                Pat::Path(x) => { o.push(x.path.segments.last().unwrap().ident.to_string()); true }
                Pat::Ident(x) if x.subpat.is_none() && x.ident.to_string().starts_with(char::is_uppercase) => { o.push(x.ident.to_string()); true }
                Pat::Wild(_) => { o.push("_".into()); true }
                _ => false,
            }
        }
        if !pats(&arm.pat, &mut names) { return Err("a case binds names".into()); }
        let sub = subs.iter().find(|x| names.iter().any(|n| x.path.ends_with(&format!("@:{n}"))));
        let mut g = match sub { Some(x) => (*x).clone(), None => FnC { file: f.file.clone(), path: format!("{}@:{}", f.path, names[0]), ..Default::default() } };
        for (k, v) in &f.opts { if k != "arms" && k != "lift" { g.opts.entry(k.clone()).or_insert(v.clone()); } }
        g.attrs = f.attrs.clone();
        let cond = if names == ["_"] { "true".to_string() } else { format!("(match {scrut} {{ {} => true, _ => false }})", tok(&arm.pat)) };
        let spec = f.spec.trim_start();
        g.spec = match spec.strip_prefix("requires") { Some(r) => format!("requires {cond}, {r}"), None => format!("requires {cond},\n{spec}") };
        let fname = format_ident!("{}__{}", item.sig.ident, if names[0] == "_" { "other".to_string() } else { g.path.rsplit_once("@:").unwrap().1.to_string() });
        let body = (*arm.body).clone();
        let blk: Block = match body { Expr::Block(b) => b.block, o => parse_quote!({ #o }) };
        let mut it = item.clone();
        it.sig.ident = fname.clone();
        it.block = Box::new(blk);
        out.push((g, it));
        *arm.body = parse_quote!(#fname(#(#params),*));
    }
    let mut d = f.clone();
    d.opts.remove("arms");
    d.loops.clear();
    d.proofs.clear();
    out.push((d, whole));
    Ok(out)
}
fn rename(t: &str, c: &Contract) -> String {
    let mut t = t.to_string();
    for (a, b) in &c.types {
        if a.chars().all(|c| c.is_alphanumeric() || c == '_') {
            t = replace_word(&t, a, b);
        } else {
            t = replace_ws(&t, a, b);
        }
    }
    t
}
/// replace `a` by `b`, ignoring white space between the characters of the text
fn replace_ws(t: &str, a: &str, b: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    let ac: Vec<char> = a.chars().filter(|c| !c.is_whitespace()).collect();
    let isw = |c: char| c.is_alphanumeric() || c == '_';
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        let mut ok = !(i > 0 && isw(cs[i - 1]) && isw(ac[0]));
        let mut j = i;
        if ok {
            for (n, c) in ac.iter().enumerate() {
                while n > 0 && j < cs.len() && cs[j].is_whitespace() { j += 1; }
                if j >= cs.len() || cs[j] != *c { ok = false; break; }
                j += 1;
            }
        }
        if ok { o.push_str(b); i = j; } else { o.push(cs[i]); i += 1; }
    }
    o
}
fn replace_word(t: &str, a: &str, b: &str) -> String {
    let mut o = String::new();
    let cs: Vec<char> = t.chars().collect();
    let ac: Vec<char> = a.chars().collect();
    let mut i = 0;
    let isw = |c: char| c.is_alphanumeric() || c == '_';
    while i < cs.len() {
        if cs[i..].starts_with(&ac) && (i == 0 || !isw(cs[i - 1])) && (i + ac.len() >= cs.len() || !isw(cs[i + ac.len()])) {
            o.push_str(b);
            i += ac.len();
        } else {
            o.push(cs[i]);
            i += 1;
        }
    }
    o
}
fn emit_fn(c: &Contract, f: &FnC, ty: Option<&str>, mut item: ItemFn, helpers: HashMap<String, ItemFn>, bare: bool) -> Result<(String, Vec<String>, Vec<String>), String> {
    AttrStrip.visit_item_fn_mut(&mut item);
    // `mut self` by value: a mutable local copy of the receiver
    if let Some(FnArg::Receiver(r)) = item.sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.take().is_some() {
            struct SelfTo;
            impl VisitMut for SelfTo {
                fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { *i = Ident::new("vx_self", i.span()); } }
            }
            SelfTo.visit_block_mut(&mut item.block);
            item.block.stmts.insert(0, parse_quote!(let mut vx_self = self;));
        }
    }
    // a returned lazy iterator is materialised: `collect()` on the tail expression
    if let (Some(t), false) = (f.opts.get("collect_tail"), bare) {
        let ty: Type = parse_str(t).map_err(|e| e.to_string())?;
        if let Some(Stmt::Expr(e, None)) = item.block.stmts.last_mut() { *e = parse_quote!(#e.collect::<#ty>()); }
        item.sig.output = parse_quote!(-> #ty);
    }
    if let (Some(o), false) = (f.opts.get("opaque"), bare) {
        let (n, call) = o.split_once('=').ok_or("bad opaque")?;
        opaque(&mut item, n.trim(), call.trim(), 4000)?;
    }
    if bare { item.block = parse_quote!({ loop { } }); }
    let ret = match &item.sig.output { ReturnType::Type(_, t) => type_kind(t), _ => None };
    REAL.with(|r| r.set(f.opts.contains_key("vf")));
    let mut all = c.opts.clone();
    all.extend(f.opts.clone());
    let mut cx = Ctx::new(ret, all);
    cx.helpers = helpers;
    cx.refs = item.sig.inputs.iter().filter_map(|a| match a {
        FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_none() => Some("self".to_string()),
        FnArg::Typed(t) => match (&*t.pat, &*t.ty) { (Pat::Ident(i), Type::Reference(r)) if r.mutability.is_none() => Some(i.ident.to_string()), _ => None },
        _ => None,
    }).collect();
    // tail position: collect() takes the function's own kind
    cx.hint = ret;
    if !f.opts.contains_key("keep_continue") { NoContinue.visit_block_mut(&mut item.block); }
    cx.visit_block_mut(&mut item.block);
    TypeFix.visit_item_fn_mut(&mut item);
    let used = cx.used_helpers.clone();
    // print body
    let block = &item.block;
    let wrapf: ItemFn = parse_quote!(fn __body() #block);
    let t = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Fn(wrapf)] });
    let mut body = t[t.find('{').unwrap()..].trim_end().to_string();
    // order loops by textual appearance
    let mut order: Vec<usize> = vec![];
    let mut pos = 0;
    while let Some(k) = body[pos..].find("__vx_loop!(") {
        let s = pos + k + "__vx_loop!(".len();
        let e = s + body[s..].find(')').unwrap();
        let n: usize = body[s..e].trim().parse().unwrap();
        if !order.contains(&n) { order.push(n); }
        pos = e;
    }
    let (mut nl, mut na) = (0, 0);
    let mut label: BTreeMap<usize, String> = BTreeMap::new();
    for n in &order {
        let auto = cx.loops.get(n).map(|l| l.auto).unwrap_or(false);
        if auto { label.insert(*n, format!("A{na}")); na += 1; } else { label.insert(*n, format!("L{nl}")); nl += 1; }
    }
    for k in f.loops.keys() {
        if !bare && !label.values().any(|v| v == k) {
            return Err(format!("structure {}: loop {k} no longer present", f.path));
        }
    }
    // loops
    for n in &order {
        let lab = &label[n];
        let info = &cx.loops[n];
        let user = f.loops.get(lab).cloned().unwrap_or_default();
        let mut txt = String::from("\n");
        let mut invs: Vec<String> = info.inv.clone();
        let drop = f.opts.get("noauto").map(|v| v.split_whitespace().any(|x| x == lab)).unwrap_or(false);
        if !drop { invs.extend(info.spec.clone()); }
        let (uinv, udec, uextra) = split_user(&user);
        if !invs.is_empty() || !uinv.trim().is_empty() {
            txt.push_str("    invariant\n");
            for i in &invs { txt.push_str(&format!("        {i},\n")); }
            txt.push_str(&uinv);
        }
        txt.push_str(&uextra);
        if let Some(d) = udec.or(info.decreases.clone()) { txt.push_str(&format!("    decreases {d},\n")); }
        let mark = format!("__vx_loop!({n});");
        while let Some(k) = body.find(&mark) {
            let b = body[..k].rfind('{').ok_or("no brace")?;
            let after = k + mark.len();
            body = format!("{}{}{{{}", &body[..b].trim_end(), txt, &body[after..]);
        }
    }
    // proofs
    let mut seen_keys = HashSet::new();
    let mut rename_only = false;
    loop {
        let k = match body.find("__vx_p!(") { Some(k) => k, None => break };
        let s = k + "__vx_p!(".len();
        let e = s + body[s..].find(')').unwrap();
        let inner = body[s..e].trim().to_string();
        let (kw, n) = inner.split_once(' ').ok_or("bad __vx_p")?;
        let n: usize = n.trim().parse().map_err(|_| "bad __vx_p n")?;
        let key = format!("{kw}:{}", label.get(&n).cloned().unwrap_or_default());
        let mut end = e + 1;
        if body[end..].starts_with(';') { end += 1; }
        let mut rep = match f.proofs.get(&format!("g{key}")) { Some(p) => { seen_keys.insert(format!("g{key}")); p.clone() } None => String::new() };
        if let Some(p) = f.proofs.get(&key) { seen_keys.insert(key.clone()); rep.push_str(&format!("proof {{ {p} }}")); }
        body = format!("{}{}{}", &body[..k], rep, &body[end..]);
    }
    for k in f.proofs.keys() { if !bare && !seen_keys.contains(k) { return Err(format!("structure {}: proof anchor {k} gone", f.path)); } }
    if bare { body = "{ loop { } }".to_string(); }
    // reachability run: every precondition must be satisfiable, so `assert(false)` must fail
    if !bare && std::env::var("VX_VACUITY").is_ok() { body = "{ proof { assert(false); } vx_unreachable() }".to_string(); rename_only = true; }
    if !bare && !rename_only && !f.entry.trim().is_empty() {
        body = format!("{{\n    proof {{ {} }}\n{}", f.entry, &body[1..]);
    }
    if let (Some(u), false) = (f.opts.get("use"), bare || rename_only) { body = format!("{{\n    broadcast use {u};\n{}", &body[1..]); }
    // temp ids -> labels
    for (n, l) in &label {
        for p in ["ix", "hi", "lo", "src", "out", "err", "fnd", "rep", "tk", "zh", "tmp"] {
            for z in ["", "z1", "z2", "z3"] {
                body = replace_word(&body, &format!("{p}{z}T{n}"), &format!("{p}{z}{l}"));
            }
        }
    }
    let mut sig = item.sig.clone();
    if let Some(n) = &f.asname { sig.ident = Ident::new(n, proc_macro2::Span::call_site()); }
    // `mut` parameters: rebind
    let mut rebinds = String::new();
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(p) = &mut *t.pat {
                if p.mutability.is_some() && p.by_ref.is_none() {
                    p.mutability = None;
                    rebinds.push_str(&format!("let mut {0} = {0};\n", p.ident));
                }
            }
        }
    }
    // ghost copies of the parameters, for invariants under shadowing
    if !bare && !f.opts.contains_key("noghost") {
        let mut gh = String::new();
        for (i, a) in sig.inputs.iter().enumerate() {
            if let FnArg::Typed(t) = a {
                if let (Pat::Ident(p), false) = (&*t.pat, matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some())) {
                    gh.push_str(&format!("    let ghost gp{i} = {};\n", p.ident));
                }
            }
        }
        body = format!("{{\n{}{}", gh, &body[1..]);
    }
    if !bare && !rebinds.is_empty() { body = format!("{{\n{}{}", rebinds, &body[1..]); }
    let outt = match &sig.output { ReturnType::Type(_, t) => Some(tok(t)), _ => None };
    sig.output = ReturnType::Default;
    let wc = sig.generics.where_clause.take();
    let mut head = tok(&sig);
    if let Some(s) = f.opts.get("sig") { head = s.clone(); }
    let outt = f.opts.get("ret").cloned().or(outt);
    if let Some(t) = outt { head.push_str(&format!(" -> ({}: {t})", f.opts.get("retname").map(|s| s.as_str()).unwrap_or("r"))); }
    if let Some(w) = wc { if !f.opts.contains_key("sig") { head.push_str(&format!(" {}", tok(&w))); } }
    let mut txt = String::new();
    txt.push_str(if bare { "#[verifier::external_body]\n" } else { "#[verifier::loop_isolation(false)]\n" });
    for a in &f.attrs { txt.push_str(a); txt.push('\n'); }
    txt.push_str(&format!("pub {head}\n{}{}\n", indent(&f.spec, "    "), body));
    let mut txt = txt;
    if let Some(l) = f.opts.get("types") {
        for r in l.split(";;") {
            if let Some((a, b)) = r.split_once("=>") { txt = replace_ws(&txt, a.trim(), b.trim()); }
        }
    }
    let t = rename(&txt, c);
    let t = match (ty, f.opts.get("noimpl")) {
        (Some(ty), None) => { let h = f.opts.get("impl").cloned().unwrap_or_else(|| format!("impl {}", rename(ty, c))); format!("{h} {{\n{t}}}\n") }
        _ => t,
    };
    Ok((format!("// ==== {}::{}\n{t}\n", f.file, f.path), order.iter().map(|n| label[n].clone()).collect(), used))
}
fn split_user(u: &str) -> (String, Option<String>, String) {
    let mut inv = String::new();
    let mut dec = None;
    let mut extra = String::new();
    let mut mode = 0;
    for l in u.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("decreases ") { dec = Some(r.trim_end_matches(',').to_string()); mode = 1; continue; }
        if t == "invariant" { mode = 0; continue; }
        if t.starts_with("ensures") || t.starts_with("invariant_except_break") { mode = 2; }
        match mode { 2 => { extra.push_str(l); extra.push('\n'); } _ => { inv.push_str("        "); inv.push_str(l); inv.push('\n'); } }
    }
    (inv, dec, extra)
}

/// a constant table of string literals: an exec constant with its entries as postconditions, the
/// predicate NAME_has over its entries, and the lemma relating the two
fn str_table(it: &Item) -> Option<String> {
    let Item::Const(c) = it else { return None };
    let e = match &*c.expr { Expr::Reference(r) => &*r.expr, e => e };
    let Expr::Array(a) = e else { return None };
    let mut v = vec![];
    for x in &a.elems { match x { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => v.push(s.value()), _ => return None } }
    if v.is_empty() { return None; }
    let (n, k) = (c.ident.to_string(), v.len());
    let ens: Vec<String> = v.iter().enumerate().map(|(i, s)| format!("X@[{i}]@ == {s:?}@")).collect();
    let has: Vec<String> = v.iter().map(|s| format!("s == {s:?}@")).collect();
    let lits: Vec<String> = v.iter().map(|s| format!("{s:?}")).collect();
    let cases: Vec<String> = (0..k).map(|i| format!("if j == {i} {{ }}")).collect();
    let wit: Vec<String> = v.iter().enumerate().map(|(i, s)| format!("if s == {s:?}@ {{ assert(v[{i}]@ == s); }}")).collect();
    Some(format!(
        "pub exec const {n}: [&'static str; {k}] ensures {n}@.len() == {k}, {} {{ [{}] }}\npub open spec fn {n}_has(s: Seq<char>) -> bool {{ {} }}\npub proof fn {n}_cases(v: Seq<&'static str>) requires v.len() == {k}, {}\n    ensures forall|s: Seq<char>| #![trigger {n}_has(s)] {n}_has(s) == (exists|j: int| 0 <= j < {k} && #[trigger] v[j]@ == s)\n{{\n    assert forall|s: Seq<char>| #![trigger {n}_has(s)] {n}_has(s) == (exists|j: int| 0 <= j < {k} && #[trigger] v[j]@ == s) by {{\n        if exists|j: int| 0 <= j < {k} && #[trigger] v[j]@ == s {{ let j = choose|j: int| 0 <= j < {k} && #[trigger] v[j]@ == s; {} }}\n        {}\n    }}\n}}\n",
        ens.join(", ").replace("X@[", &format!("{n}@[")), lits.join(", "), has.join(" || "), ens.join(", ").replace("X@[", "v["), cases.join(" else "), wit.join(" else ")
    ))
}
