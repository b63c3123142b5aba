//! Integer constants: collection from the source and folding into literals.
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};

#[derive(Default, Clone)]
pub struct Env {
    /// "Type::NAME" and "NAME"
    pub map: HashMap<String, u128>,
    pub self_ty: Option<String>,
    /// byte-string constants
    pub bytes: HashMap<String, syn::LitByteStr>,
    /// defaults of associated constants of traits; `None` when two traits give the name different defaults
    pub defaults: HashMap<String, Option<syn::Expr>>,
}

impl Env {
    pub fn collect(&mut self, items: &[syn::Item]) {
        // a few passes so that constants may refer to later ones
        for _ in 0..3 {
            for it in items {
                match it {
                    syn::Item::Const(c) => {
                        if let Some(v) = self.eval(&c.expr) {
                            self.map.insert(c.ident.to_string(), v);
                        }
                        if let syn::Type::Array(a) = &*c.ty {
                            if let Some(n) = self.eval(&a.len) {
                                self.map.insert(format!("len::{}", c.ident), n);
                            }
                        }
                        if let Some(n) = self.size_of_type(&c.ty) {
                            self.map.insert(format!("size_of_val::{}", c.ident), n);
                        }
                        if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) = &*c.expr {
                            self.map.insert(format!("len::{}", c.ident), b.value().len() as u128);
                            self.bytes.insert(c.ident.to_string(), b.clone());
                        }
                    }
                    syn::Item::Enum(en) => {
                        // a field-less enum whose values fit a byte takes one byte
                        let repr = en.attrs.iter().any(|a| crate::toks(a).replace(' ', "").starts_with("#[repr("));
                        if !repr && en.variants.len() >= 2
                            && en.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit)
                                && v.discriminant.as_ref().map(|d| self.eval(&d.1).is_some_and(|x| x < 256)).unwrap_or(true))
                        {
                            self.map.insert(format!("size_of::{}", en.ident), 1);
                        }
                        // #[repr(u8)] / #[repr(u16)] give the size
                        for a in &en.attrs {
                            let t = crate::toks(a).replace(' ', "");
                            for (r, n) in [("#[repr(u8)]", 1), ("#[repr(u16)]", 2), ("#[repr(u32)]", 4)] {
                                if t == r {
                                    self.map.insert(format!("size_of::{}", en.ident), n);
                                }
                            }
                        }
                    }
                    syn::Item::Impl(im) => {
                        let ty = match &*im.self_ty {
                            syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                            _ => continue,
                        };
                        let save = self.self_ty.replace(ty.clone());
                        for ii in &im.items {
                            if let syn::ImplItem::Const(c) = ii {
                                if let Some(v) = self.eval(&c.expr) {
                                    self.map.insert(format!("{ty}::{}", c.ident), v);
                                }
                            }
                        }
                        self.self_ty = save;
                    }
                    syn::Item::Trait(t) => {
                        for ti in &t.items {
                            if let syn::TraitItem::Const(c) = ti {
                                if let Some((_, d)) = &c.default {
                                    let n = c.ident.to_string();
                                    let v = match self.defaults.get(&n) {
                                        Some(Some(o)) if crate::toks(o) == crate::toks(d) => Some(d.clone()),
                                        Some(_) => None,
                                        None => Some(d.clone()),
                                    };
                                    self.defaults.insert(n, v);
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    pub fn path(&self, p: &syn::Path) -> Option<u128> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.len();
        match (segs.get(n.wrapping_sub(2)).map(|s| s.as_str()), segs[n - 1].as_str()) {
            (Some("u8"), "BITS") => return Some(8),
            (Some("u16"), "BITS") => return Some(16),
            (Some("u32"), "BITS") => return Some(32),
            (Some("u64"), "BITS") => return Some(64),
            (Some("u128"), "BITS") => return Some(128),
            _ => {}
        }
        if n == 1 {
            return self.map.get(&segs[0]).copied();
        }
        let ty = if segs[n - 2] == "Self" { self.self_ty.clone()? } else { segs[n - 2].clone() };
        self.map
            .get(&format!("{}::{}", ty, segs[n - 1]))
            .or_else(|| {
                // module-qualified free constant, e.g. aes::BLOCK_SIZE
                if ty.chars().next().map(|c| c.is_lowercase()).unwrap_or(false) {
                    self.map.get(&segs[n - 1])
                } else {
                    None
                }
            })
            .copied()
            .or_else(|| {
                // the default of the trait, evaluated for this type
                let d = self.defaults.get(&segs[n - 1])?.clone()?;
                let mut env = self.clone();
                env.self_ty = Some(ty.clone());
                env.defaults.remove(&segs[n - 1]);
                env.eval(&d)
            })
    }

    pub fn size_of(&self, call: &syn::ExprCall) -> Option<u128> {
        if let syn::Expr::Path(p) = &*call.func {
            let s = p.path.segments.last()?;
            // size_of_val(&NAME) of a constant
            if s.ident == "size_of_val" && call.args.len() == 1 {
                if let syn::Expr::Reference(r) = &call.args[0] {
                    if let syn::Expr::Path(p) = &*r.expr {
                        let n = p.path.segments.last()?.ident.to_string();
                        return self.map.get(&format!("size_of_val::{n}")).copied();
                    }
                }
                return None;
            }
            if s.ident != "size_of" || !call.args.is_empty() {
                return None;
            }
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                    return self.size_of_type(t);
                }
            }
        }
        None
    }

    pub fn size_of_type(&self, t: &syn::Type) -> Option<u128> {
        match t {
            syn::Type::Path(t) => {
                let seg = t.path.segments.last()?;
                let name = seg.ident.to_string();
                match name.as_str() {
                    "u8" | "bool" | "i8" => Some(1),
                    "u16" => Some(2),
                    "u32" => Some(4),
                    "u64" | "usize" => Some(8),
                    "u128" => Some(16),
                    // arrays of 64-bit digits (and a marker of size zero)
                    "UBigInt" | "FieldElement" => match &seg.arguments {
                        syn::PathArguments::AngleBracketed(a) => match a.args.first() {
                            Some(syn::GenericArgument::Const(e)) => Some(8 * self.eval(e)?),
                            _ => None,
                        },
                        _ => None,
                    },
                    n => self.map.get(&format!("size_of::{n}")).copied(),
                }
            }
            syn::Type::Array(a) => Some(self.size_of_type(&a.elem)? * self.eval(&a.len)?),
            _ => None,
        }
    }

    pub fn eval(&self, e: &syn::Expr) -> Option<u128> {
        use syn::*;
        Some(match e {
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok()?,
            Expr::Path(p) => self.path(&p.path)?,
            Expr::Paren(p) => self.eval(&p.expr)?,
            Expr::Group(p) => self.eval(&p.expr)?,
            Expr::Cast(c) => self.eval(&c.expr)?,
            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(e, None) => self.eval(e)?,
                _ => return None,
            },
            Expr::Call(c) => self.size_of(c)?,
            Expr::MethodCall(m) if m.method == "len" => {
                let s = crate::toks(&m.receiver).replace(' ', "");
                *self.map.get(&format!("len::{s}"))?
            }
            Expr::Binary(b) => {
                let (x, y) = (self.eval(&b.left)?, self.eval(&b.right)?);
                match b.op {
                    BinOp::Add(_) => x + y,
                    BinOp::Sub(_) => x.checked_sub(y)?,
                    BinOp::Mul(_) => x * y,
                    BinOp::Div(_) => x.checked_div(y)?,
                    BinOp::Rem(_) => x.checked_rem(y)?,
                    BinOp::Shl(_) => x << y,
                    _ => return None,
                }
            }
            _ => return None,
        })
    }
}

pub fn lit_usize(v: u128) -> syn::Expr {
    let l = syn::LitInt::new(&format!("{v}"), proc_macro2::Span::call_site());
    syn::parse_quote!(#l)
}

/// Folds named integer constants and `size_of::<prim>()` into literals.
pub struct Fold<'a>(pub &'a Env);
impl<'a> VisitMut for Fold<'a> {
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        let v = match p {
            syn::Pat::Path(q) if q.qself.is_none() => self.0.path(&q.path),
            _ => None,
        };
        if let Some(v) = v {
            *p = syn::Pat::Lit(match lit_usize(v) {
                syn::Expr::Lit(l) => l,
                _ => unreachable!(),
            });
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if let Ok(mut p) = m.parse_body_with(
            syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
        ) {
            for e in p.iter_mut() {
                self.visit_expr_mut(e);
            }
            m.tokens = quote::quote!(#p);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::Path(p) if p.qself.is_none() => {
                if let Some(v) = self.0.path(&p.path) {
                    *e = lit_usize(v);
                    return;
                }
                if let Some(b) = p.path.get_ident().and_then(|i| self.0.bytes.get(&i.to_string())) {
                    *e = syn::Expr::Lit(syn::ExprLit { attrs: vec![], lit: syn::Lit::ByteStr(b.clone()) });
                    return;
                }
            }
            syn::Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => {
                if let Some(v) = self.0.eval(e) {
                    *e = lit_usize(v);
                    return;
                }
            }
            syn::Expr::Call(c) => {
                if let Some(v) = self.0.size_of(c) {
                    *e = lit_usize(v);
                    return;
                }
            }
            syn::Expr::Const(c) if c.block.stmts.len() == 1 => {
                if let syn::Stmt::Expr(inner, None) = &c.block.stmts[0] {
                    let mut inner = inner.clone();
                    self.visit_expr_mut(&mut inner);
                    *e = syn::parse_quote!((#inner));
                    return;
                }
            }
            syn::Expr::Cast(c) => {
                // u64::BITS as usize -> 64
                if let syn::Expr::Path(p) = &*c.expr {
                    if let Some(v) = self.0.path(&p.path) {
                        let ty = &c.ty;
                        let l = syn::LitInt::new(
                            &format!("{v}{}", crate::toks(ty)),
                            proc_macro2::Span::call_site(),
                        );
                        *e = syn::parse_quote!(#l);
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_type_array_mut(&mut self, t: &mut syn::TypeArray) {
        if let Some(v) = self.0.eval(&t.len) {
            t.len = lit_usize(v);
        }
        self.visit_type_mut(&mut t.elem);
    }
    fn visit_generic_argument_mut(&mut self, g: &mut syn::GenericArgument) {
        if let syn::GenericArgument::Const(e) = g {
            if let Some(v) = self.0.eval(e) {
                *e = lit_usize(v);
                return;
            }
        }
        visit_mut::visit_generic_argument_mut(self, g);
    }
    fn visit_expr_repeat_mut(&mut self, r: &mut syn::ExprRepeat) {
        if let Some(v) = self.0.eval(&r.len) {
            r.len = Box::new(lit_usize(v));
        }
        self.visit_expr_mut(&mut r.expr);
    }
}

pub fn fold_item_text(s: &str, env: &Env) -> String {
    match syn::parse_str::<syn::Item>(s) {
        Ok(mut it) => {
            let mut env = env.clone();
            if let syn::Item::Struct(st) = &it {
                env.self_ty = Some(st.ident.to_string());
            }
            // do not fold the defined name itself, only its type and value
            Fold(&env).visit_item_mut(&mut it);
            crate::toks(&it)
        }
        Err(_) => s.to_string(),
    }
}
