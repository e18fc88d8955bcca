//! lift SRC DST : copies every .rs file below SRC to DST, rewriting floating-point code so that
//! it computes over `::symreal::S` (a symbolic real) instead of `f64`.
//!
//! The rewriting is purely type-directed-by-name and local:
//!   * the types `f64`/`f32` become `::symreal::S`
//!   * float literals `x` become `::symreal::S::lit(x)`
//!   * numeric casts `e as T` become `::symreal::sym_as::<_, T>(e)`
//!   * `std::f64::...` paths become `::symreal::f64::...`
//!   * in const initialisers arithmetic is turned into calls of const functions
//!   * `#[cfg(test)]` items are removed
//! Everything else (control flow, data structures, calls, traits) is the source's own.
use proc_macro2::{TokenStream, TokenTree, Group};
use quote::{quote, ToTokens};
use std::path::Path;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct L {
    const_mode: bool,
    const_float: bool,
    impl_ty: String,
}

const NUM: [&str; 14] = [
    "f64", "f32", "Float", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64",
    "isize",
];

fn last_ident(t: &Type) -> Option<String> {
    if let Type::Path(p) = t {
        if p.qself.is_none() {
            return p.path.segments.last().map(|s| s.ident.to_string());
        }
    }
    None
}

fn is_num_ty(t: &Type) -> bool {
    last_ident(t).map(|s| NUM.contains(&s.as_str())).unwrap_or(false)
}
fn is_float_ty(t: &Type) -> bool {
    last_ident(t).map(|s| ["f64", "Float"].contains(&s.as_str())).unwrap_or(false)
}

fn toks_contain_float(ts: TokenStream) -> bool {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if s == "Float" || s == "f64" || s == "S" || s == "PI" {
                    return true;
                }
            }
            TokenTree::Literal(l) => {
                if let Lit::Float(_) = Lit::new(l) {
                    return true;
                }
            }
            TokenTree::Group(g) => {
                if toks_contain_float(g.stream()) {
                    return true;
                }
            }
            _ => {}
        }
    }
    false
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("cfg") {
            let s = a.to_token_stream().to_string().replace(' ', "");
            s.contains("(test)") || s.contains("(any())") || s.contains("all(test,")
        } else {
            a.path().is_ident("test") || a.path().is_ident("bench")
        }
    })
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

/// token-level fallback for macro bodies that are not expression lists
fn tok_rewrite(ts: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Literal(l) => {
                if let Lit::Float(f) = Lit::new(l.clone()) {
                    let d = LitFloat::new(f.base10_digits(), f.span());
                    out.extend(quote!(::symreal::S::C(#d)));
                } else {
                    out.extend([TokenTree::Literal(l)]);
                }
            }
            TokenTree::Ident(i) if i == "f64" => out.extend(quote!(::symreal::S)),
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), tok_rewrite(g.stream()));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            o => out.extend([o]),
        }
    }
    out
}

fn fix_std_path(p: &mut syn::Path) {
    // std::f64::consts::PI, core::f64::MAX
    if p.segments.len() >= 2 {
        let a = p.segments[0].ident.to_string();
        let b = p.segments[1].ident.to_string();
        if (a == "std" || a == "core") && (b == "f64") {
            let rest: Vec<_> = p.segments.iter().skip(2).cloned().collect();
            let mut np: syn::Path = parse_quote!(::symreal::f64);
            for r in rest {
                np.segments.push(r);
            }
            *p = np;
            return;
        }
        if a == "f64" {
            let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
            let mut np: syn::Path = parse_quote!(::symreal::S);
            for r in rest {
                np.segments.push(r);
            }
            *p = np;
        }
    } else if p.segments.len() == 1 && p.leading_colon.is_none() {
        let a = p.segments[0].ident.to_string();
        if a == "f64" {
            *p = parse_quote!(::symreal::S);
        }
    }
}

/// `$x` -> `__mv_x`; None when the body uses repetitions
fn hide_vars(ts: TokenStream) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    let mut it = ts.into_iter();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => match it.next() {
                Some(TokenTree::Ident(i)) => {
                    let n = proc_macro2::Ident::new(&format!("__mv_{i}"), i.span());
                    out.extend([TokenTree::Ident(n)]);
                }
                _ => return None,
            },
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(
                g.delimiter(),
                hide_vars(g.stream())?,
            ))]),
            o => out.extend([o]),
        }
    }
    Some(out)
}
fn show_vars(ts: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Ident(i) if i.to_string().starts_with("__mv_") => {
                let n = proc_macro2::Ident::new(&i.to_string()[5..], i.span());
                let d = proc_macro2::Punct::new('$', proc_macro2::Spacing::Alone);
                out.extend([TokenTree::Punct(d), TokenTree::Ident(n)]);
            }
            TokenTree::Group(g) => {
                out.extend([TokenTree::Group(Group::new(g.delimiter(), show_vars(g.stream())))])
            }
            o => out.extend([o]),
        }
    }
    out
}

impl L {
    fn macro_rules(&mut self, ts: TokenStream) -> TokenStream {
        // (pattern) => { body } ; ...
        let mut out = TokenStream::new();
        let mut ngroup = 0;
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    ngroup += 1;
                    if ngroup % 2 == 1 {
                        out.extend([TokenTree::Group(g)]);
                        continue;
                    }
                    let mut new = None;
                    if let Some(h) = hide_vars(g.stream()) {
                        let w = quote!({ #h });
                        if let Ok(mut b) = parse2::<Block>(w) {
                            self.visit_block_mut(&mut b);
                            let mut inner = TokenStream::new();
                            for st in &b.stmts {
                                st.to_tokens(&mut inner);
                            }
                            new = Some(show_vars(inner));
                        }
                    }
                    let body = new.unwrap_or_else(|| tok_rewrite(g.stream()));
                    out.extend([TokenTree::Group(Group::new(g.delimiter(), body))]);
                }
                o => out.extend([o]),
            }
        }
        out
    }
    fn items(&mut self, v: &mut Vec<Item>) {
        v.retain(|i| !is_cfg_test(item_attrs(i)));
        let mut extra = vec![];
        for i in v.iter() {
            if let Item::Enum(e) = i {
                if !e.variants.is_empty()
                    && e.generics.params.is_empty()
                    && e.variants.iter().all(|v| matches!(v.fields, Fields::Unit))
                {
                    let id = &e.ident;
                    extra.push(parse_quote!(::symreal::enum_as!(#id);));
                }
            }
        }
        v.extend(extra);
    }
    fn floatish(&self, e: &Expr) -> bool {
        self.const_float || toks_contain_float(e.to_token_stream())
    }
}

impl VisitMut for L {
    fn visit_file_mut(&mut self, f: &mut File) {
        self.items(&mut f.items);
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, v)) = &mut m.content {
            self.items(v);
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Item(i) => !is_cfg_test(item_attrs(i)),
            _ => true,
        });
        let (m, f) = (self.const_mode, self.const_float);
        visit_mut::visit_block_mut(self, b);
        self.const_mode = m;
        self.const_float = f;
    }
    fn visit_item_impl_mut(&mut self, im: &mut ItemImpl) {
        im.items.retain(|i| match i {
            ImplItem::Fn(f) => !is_cfg_test(&f.attrs),
            _ => true,
        });
        let old = std::mem::replace(
            &mut self.impl_ty,
            im.self_ty.to_token_stream().to_string().replace(' ', ""),
        );
        visit_mut::visit_item_impl_mut(self, im);
        self.impl_ty = old;
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        let (m, fl) = (self.const_mode, self.const_float);
        self.const_mode = f.sig.constness.is_some();
        self.const_float = false;
        visit_mut::visit_item_fn_mut(self, f);
        if !self.const_mode {
            let n = f.sig.ident.to_string();
            f.block.stmts.insert(0, parse_quote!(::symreal::enter(concat!(module_path!(), "::", #n));));
        }
        self.const_mode = m;
        self.const_float = fl;
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        let (m, fl) = (self.const_mode, self.const_float);
        self.const_mode = f.sig.constness.is_some();
        self.const_float = false;
        visit_mut::visit_impl_item_fn_mut(self, f);
        if !self.const_mode {
            let n = f.sig.ident.to_string();
            let t = self.impl_ty.clone();
            f.block.stmts.insert(0, parse_quote!(::symreal::enter(concat!(module_path!(), "::", #t, "::", #n));));
        }
        self.const_mode = m;
        self.const_float = fl;
    }
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) {
        let (m, fl) = (self.const_mode, self.const_float);
        self.const_mode = true;
        self.const_float = is_float_ty(&c.ty);
        visit_mut::visit_item_const_mut(self, c);
        self.const_mode = m;
        self.const_float = fl;
    }
    fn visit_impl_item_const_mut(&mut self, c: &mut ImplItemConst) {
        let (m, fl) = (self.const_mode, self.const_float);
        self.const_mode = true;
        self.const_float = is_float_ty(&c.ty);
        visit_mut::visit_impl_item_const_mut(self, c);
        self.const_mode = m;
        self.const_float = fl;
    }
    fn visit_item_static_mut(&mut self, c: &mut ItemStatic) {
        let (m, fl) = (self.const_mode, self.const_float);
        self.const_mode = true;
        self.const_float = is_float_ty(&c.ty);
        visit_mut::visit_item_static_mut(self, c);
        self.const_mode = m;
        self.const_float = fl;
    }
    fn visit_type_array_mut(&mut self, t: &mut TypeArray) {
        self.visit_type_mut(&mut t.elem);
    }
    fn visit_expr_repeat_mut(&mut self, t: &mut ExprRepeat) {
        self.visit_expr_mut(&mut t.expr);
    }
    fn visit_generic_argument_mut(&mut self, g: &mut GenericArgument) {
        if let GenericArgument::Const(_) = g {
            return;
        }
        visit_mut::visit_generic_argument_mut(self, g);
    }
    fn visit_use_tree_mut(&mut self, u: &mut UseTree) {
        if let UseTree::Path(p) = u {
            if p.ident == "std" || p.ident == "core" {
                if let UseTree::Path(q) = &*p.tree {
                    if q.ident == "f64" {
                        let rest = &q.tree;
                        *u = parse_quote!(symreal::f64::#rest);
                        return;
                    }
                }
                if let UseTree::Name(q) = &*p.tree {
                    if q.ident == "f64" {
                        *u = parse_quote!(symreal::f64);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_use_tree_mut(self, u);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        fix_std_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // literals in patterns stay as they are (integers); float patterns are not supported
        match p {
            Pat::Lit(_) | Pat::Range(_) => {}
            _ => visit_mut::visit_pat_mut(self, p),
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Lit(l) => {
                if let Lit::Float(f) = &l.lit {
                    let d = LitFloat::new(f.base10_digits(), f.span());
                    *e = parse_quote!(::symreal::S::C(#d));
                }
            }
            Expr::Cast(c) => {
                if is_num_ty(&c.ty) {
                    if self.const_mode {
                        if is_float_ty(&c.ty) {
                            let inner = &c.expr;
                            if toks_contain_float(inner.to_token_stream()) {
                                self.visit_expr_mut(&mut c.expr);
                                let inner = &c.expr;
                                *e = parse_quote!(#inner);
                            } else {
                                *e = parse_quote!(::symreal::S::cint((#inner) as i64));
                            }
                        }
                        return;
                    }
                    self.visit_expr_mut(&mut c.expr);
                    if last_ident(&c.ty).as_deref() == Some("f32") {
                        // single precision intermediate: computed in reals as well
                        *c.ty = parse_quote!(::symreal::S);
                    }
                    self.visit_type_mut(&mut c.ty);
                    let (x, t) = (&c.expr, &c.ty);
                    *e = parse_quote!(::symreal::sym_as::<_, #t>(#x));
                } else {
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            Expr::Binary(b) if self.const_mode => {
                let float = self.floatish(&Expr::Binary(b.clone()));
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                if float {
                    let (l, r) = (&b.left, &b.right);
                    let ne: Option<Expr> = match b.op {
                        BinOp::Add(_) => Some(parse_quote!(::symreal::S::cadd(#l, #r))),
                        BinOp::Sub(_) => Some(parse_quote!(::symreal::S::csub(#l, #r))),
                        BinOp::Mul(_) => Some(parse_quote!(::symreal::S::cmul(#l, #r))),
                        BinOp::Div(_) => Some(parse_quote!(::symreal::S::cdiv(#l, #r))),
                        _ => None,
                    };
                    if let Some(ne) = ne {
                        *e = ne;
                    }
                }
            }
            Expr::Unary(u) if self.const_mode && matches!(u.op, UnOp::Neg(_)) => {
                let float = self.floatish(&u.expr);
                self.visit_expr_mut(&mut u.expr);
                if float {
                    let x = &u.expr;
                    *e = parse_quote!(::symreal::S::cneg(#x));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name == "macro_rules" {
            m.tokens = self.macro_rules(m.tokens.clone());
            return;
        }
        if name == "thread_local" {
            m.tokens = tok_rewrite(m.tokens.clone());
            return;
        }
        if name == "matches" {
            struct M(Expr, TokenStream);
            impl parse::Parse for M {
                fn parse(i: parse::ParseStream) -> Result<Self> {
                    let e = i.parse()?;
                    Ok(M(e, i.parse()?))
                }
            }
            if let Ok(mut x) = m.parse_body::<M>() {
                self.visit_expr_mut(&mut x.0);
                let (a, b) = (x.0, x.1);
                m.tokens = quote!(#a #b);
            }
            return;
        }
        if let Ok(mut l) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            for e in l.iter_mut() {
                if let Expr::Assign(a) = e {
                    self.visit_expr_mut(&mut a.right);
                } else {
                    self.visit_expr_mut(e);
                }
            }
            m.tokens = l.to_token_stream();
            return;
        }
        struct Rep(Expr, Expr);
        impl parse::Parse for Rep {
            fn parse(i: parse::ParseStream) -> Result<Self> {
                let a = i.parse()?;
                i.parse::<Token![;]>()?;
                Ok(Rep(a, i.parse()?))
            }
        }
        if let Ok(mut r) = m.parse_body::<Rep>() {
            self.visit_expr_mut(&mut r.0);
            self.visit_expr_mut(&mut r.1);
            let (a, b) = (r.0, r.1);
            m.tokens = quote!(#a ; #b);
            return;
        }
        m.tokens = tok_rewrite(m.tokens.clone());
    }
}

fn lift(src: &str, name: &str) -> std::result::Result<String, String> {
    let mut f = parse_file(src).map_err(|e| format!("{name}: {e}"))?;
    let mut l = L { const_mode: false, const_float: false, impl_ty: String::new() };
    // crate-level inner attributes such as deny(warnings) would turn lints into errors
    f.attrs.retain(|a| {
        let p = a.path();
        !(p.is_ident("deny") || p.is_ident("forbid") || p.is_ident("warn") || p.is_ident("doc"))
    });
    l.visit_file_mut(&mut f);
    Ok(f.to_token_stream().to_string())
}

fn walk(src: &Path, dst: &Path, n: &mut usize) -> std::result::Result<(), String> {
    std::fs::create_dir_all(dst).map_err(|e| e.to_string())?;
    let mut es: Vec<_> = std::fs::read_dir(src).map_err(|e| format!("{src:?}: {e}"))?.flatten().collect();
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let p = e.path();
        let d = dst.join(e.file_name());
        if p.is_dir() {
            if e.file_name() != "target" {
                walk(&p, &d, n)?;
            }
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            let s = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
            let o = lift(&s, &p.to_string_lossy())?;
            if std::fs::read_to_string(&d).ok().as_deref() != Some(&o) {
                std::fs::write(&d, o).map_err(|e| e.to_string())?;
            }
            *n += 1;
        }
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut n = 0;
    for pair in a[1..].chunks(2) {
        if let Err(e) = walk(Path::new(&pair[0]), Path::new(&pair[1]), &mut n) {
            eprintln!("lift: {e}");
            std::process::exit(2);
        }
    }
    println!("lifted {n} files");
}
