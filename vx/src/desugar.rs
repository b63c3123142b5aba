//! Desugaring of a function body into the subset Verus accepts.
use crate::consts::{Env, Fold};
use crate::template::FnSpec;
use crate::{toks, Res};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn id(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

// ---------------------------------------------------------------- expression rewrites

struct Exprs {
    chunk_vars: HashMap<String, (Expr, Expr)>,
    err: Option<String>,
    ret_option: bool,
    ntry: usize,
    /// parameters that are mutable references
    mut_refs: Vec<String>,
}
impl Exprs {
    fn tmp(&mut self) -> Ident {
        self.ntry += 1;
        id(&format!("vxq{}", self.ntry))
    }
}

fn int_ty(s: &str) -> bool {
    matches!(s, "u8" | "u16" | "u32" | "u64" | "u128" | "usize")
}

fn strip(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e.clone(),
    }
}

fn as_slice_arg(e: &Expr) -> Expr {
    match strip(e) {
        Expr::Index(i) => parse_quote!(&#i),
        e => e,
    }
}

impl VisitMut for Exprs {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        // let x: u16 = n.try_into().unwrap();
        if let (Pat::Type(pt), Some(init)) = (&l.pat, &mut l.init) {
            if int_ty(&norm(&toks(&pt.ty))) {
                if let Expr::Call(c) = &mut *init.expr {
                    if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vx_try_into")) {
                        *c.func = parse_quote!(vx_int_try_into);
                    }
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `E.ok_or(X)?` is one construct
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = &mut *t.expr {
                if m.method == "ok_or" {
                    m.method = id("vx_try_ok_or");
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // `P | Q => X`, where P and Q bind by mutable reference, is `P => X, Q => X`
        if let Expr::Match(m) = e {
            let arms = std::mem::take(&mut m.arms);
            for mut a in arms {
                if a.comma.is_none() {
                    a.comma = Some(Default::default());
                }
                match &a.pat {
                    Pat::Or(o) if binds_mut(&a.pat) => {
                        for c in &o.cases {
                            let mut b = a.clone();
                            b.pat = c.clone();
                            m.arms.push(b);
                        }
                    }
                    _ => m.arms.push(a),
                }
            }
        }
        let new: Option<Expr> = match &*e {
            Expr::MethodCall(m) if m.method == "unwrap" && m.args.is_empty() => {
                match strip(&m.receiver) {
                    Expr::MethodCall(i) if i.method == "try_into" && i.args.is_empty() => {
                        let a = as_slice_arg(&i.receiver);
                        Some(parse_quote!(vx_try_into(#a)))
                    }
                    _ => None,
                }
            }
            // the obligation of `expect` is that of `unwrap`
            Expr::MethodCall(m) if m.method == "expect" && m.args.len() == 1 => {
                let r = &m.receiver;
                Some(parse_quote!(#r.unwrap()))
            }
            Expr::MethodCall(m) if m.method == "count_ones" && m.args.is_empty() => {
                let r = &m.receiver;
                Some(parse_quote!(#r.vx_count_ones()))
            }
            // X.fill(v)
            Expr::MethodCall(m) if m.method == "fill" && m.args.len() == 1 && !matches!(strip(&m.args[0]), Expr::Call(_)) => {
                let v = &m.args[0];
                let r = strip(&m.receiver);
                match &r {
                    Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.mut_refs.contains(&i.to_string())) => {
                        Some(parse_quote!(vx_fill(#r, #v)))
                    }
                    _ => Some(parse_quote!(vx_fill(&mut #r, #v))),
                }
            }
            // X.iter().rev().position(|&p| p != E)
            Expr::MethodCall(m) if m.method == "position" && m.args.len() == 1 => (|| {
                let Expr::MethodCall(r) = strip(&m.receiver) else { return None };
                if r.method != "rev" {
                    return None;
                }
                let Expr::MethodCall(i) = strip(&r.receiver) else { return None };
                if i.method != "iter" {
                    return None;
                }
                let Expr::Closure(c) = strip(&m.args[0]) else { return None };
                let Expr::Binary(b) = strip(&c.body) else { return None };
                let want = match &c.inputs[0] {
                    Pat::Reference(p) => toks(&p.pat),
                    Pat::Ident(p) => format!("* {}", p.ident),
                    _ => return None,
                };
                if c.inputs.len() != 1 || toks(&b.left) != want || !matches!(strip(&b.right), Expr::Lit(_)) {
                    return None;
                }
                let (x, v) = (&i.receiver, &b.right);
                match b.op {
                    BinOp::Ne(_) => Some(parse_quote!(vx_rposition_ne(&#x, #v))),
                    _ => None,
                }
            })(),
            // a reference cast to a slice reference
            Expr::Cast(c) if matches!(&*c.ty, Type::Reference(r) if matches!(&*r.elem, Type::Slice(_))) => {
                let x = &c.expr;
                Some(parse_quote!(&*#x))
            }
            Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() => {
                let r = &m.receiver;
                Some(parse_quote!(vx_into(#r)))
            }
            Expr::MethodCall(m) if m.method == "remainder" && m.args.is_empty() => {
                match &*m.receiver {
                    Expr::Path(p) if p.path.get_ident().is_some() => {
                        let n = p.path.get_ident().unwrap().to_string();
                        self.chunk_vars.get(&n).map(|(b, n)| {
                            parse_quote!(&#b[#b.len() - #b.len() % #n ..])
                        })
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m)
                if (m.method == "to_be_bytes"
                    || m.method == "to_le_bytes"
                    || m.method == "to_ne_bytes")
                    && m.args.is_empty() =>
            {
                let f = id(&format!("vx_{}", m.method));
                let r = &m.receiver;
                Some(parse_quote!(#r.#f()))
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let segs: Vec<String> =
                        p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() == 2
                        && int_ty(&segs[0])
                        && (segs[1] == "from_be_bytes"
                            || segs[1] == "from_le_bytes"
                            || segs[1] == "from_ne_bytes")
                    {
                        let f = id(&format!("vx_{}", segs[1]));
                        let t = id(&segs[0]);
                        let a = &c.args;
                        Some(parse_quote!(#t::#f(#a)))
                    } else if segs.last().map(|s| s == "min").unwrap_or(false)
                        && segs.len() >= 2
                        && segs[segs.len() - 2] == "cmp"
                    {
                        let a = &c.args;
                        Some(parse_quote!(vx_min(#a)))
                    } else if segs.last().map(|s| s == "size_of_val").unwrap_or(false) {
                        let a = &c.args;
                        Some(parse_quote!(vx_size_of_val(#a)))
                    } else if segs.last().map(|s| s == "transmute").unwrap_or(false) {
                        let a = &c.args;
                        Some(parse_quote!(vx_transmute(#a)))
                    } else {
                        None
                    }
                }
                _ => None,
            },
            // `E.ok_or(X)?` and `E.map_err(|p| X)?`: the early exit spelled out
            Expr::Try(t) => match strip(&t.expr) {
                Expr::MethodCall(m) if m.method == "vx_try_ok_or" && m.args.len() == 1 => {
                    let (r, x) = (&m.receiver, &m.args[0]);
                    Some({ let t = self.tmp(); parse_quote!({ let #t = #r; match #t { Some(vxv) => vxv, None => return Err(#x) } }) })
                }
                Expr::MethodCall(m) if m.method == "map_err" && m.args.len() == 1 => match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        Some({ let t = self.tmp(); parse_quote!({ let #t = #r; match #t { Ok(vxv) => vxv, Err(#p) => return Err(#b) } }) })
                    }
                    _ => None,
                },
                x => {
                    let t = self.tmp();
                    Some(if self.ret_option {
                        parse_quote!({ let #t = #x; match #t { Some(vxv) => vxv, None => return None } })
                    } else {
                        parse_quote!({ let #t = #x; match #t { Ok(vxv) => vxv, Err(vxe) => return Err(vxe) } })
                    })
                }
            },
            Expr::MethodCall(m) if m.method == "map_err" && m.args.len() == 1 => match &m.args[0] {
                Expr::Closure(c) if c.inputs.len() == 1 => {
                    let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                    Some({ let t = self.tmp(); parse_quote!({ let #t = #r; match #t { Ok(vxv) => Ok(vxv), Err(#p) => Err(#b) } }) })
                }
                _ => None,
            },
            Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] {
                Stmt::Expr(inner, None) => Some(inner.clone()),
                _ => None,
            },
            Expr::Unsafe(u) => Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: u.block.clone() })),
            // `flag |= a == b` on bools
            Expr::Binary(b)
                if matches!(b.op, BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)) && is_cmp(&b.right) =>
            {
                let (l, r) = (&b.left, &b.right);
                Some(match b.op {
                    BinOp::BitOrAssign(_) => parse_quote!(#l = (#r) || #l),
                    _ => parse_quote!(#l = (#r) && #l),
                })
            }
            Expr::Binary(b)
                if matches!(b.op, BinOp::BitOr(_) | BinOp::BitAnd(_)) && (is_cmp(&b.left) || is_cmp(&b.right)) =>
            {
                let (l, r) = (&b.left, &b.right);
                Some(match b.op {
                    BinOp::BitOr(_) => parse_quote!(vx_or(#l, #r)),
                    _ => parse_quote!(vx_and(#l, #r)),
                })
            }
            Expr::Macro(m) => match mac_expr(&m.mac) {
                Ok(x) => Some(x),
                Err(er) => {
                    self.err = Some(er);
                    None
                }
            },
            // comparison with an associated ZERO, ONE or NEG_ONE (derived equality, through the trait VxEq)
            Expr::Binary(b) if is_cmp(e) && (is_unit(&b.left) || is_unit(&b.right)) => {
                let byref = matches!(strip(&b.left), Expr::Reference(_)) || matches!(strip(&b.right), Expr::Reference(_));
                let arg = |e: &Expr| -> Expr {
                    match strip(e) {
                        Expr::Reference(r) => Expr::Reference(r.clone()),
                        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if !byref => *expr,
                        x if byref => x,
                        x => parse_quote!(&#x),
                    }
                };
                let (l, r) = (arg(&b.left), arg(&b.right));
                Some(match b.op {
                    BinOp::Eq(_) => parse_quote!(vx_eq(#l, #r)),
                    BinOp::Lt(_) => parse_quote!((#l).lt(#r)),
                    BinOp::Le(_) => parse_quote!((#l).le(#r)),
                    BinOp::Gt(_) => parse_quote!((#l).gt(#r)),
                    BinOp::Ge(_) => parse_quote!((#l).ge(#r)),
                    _ => parse_quote!(!vx_eq(#l, #r)),
                })
            }
            Expr::MethodCall(m) if m.args.is_empty() && matches!(m.method.to_string().as_str(), "is_lt" | "is_gt" | "is_le" | "is_ge" | "is_eq" | "is_ne") => {
                let r = &m.receiver;
                let f = Ident::new(&format!("vx_{}", m.method), proc_macro2::Span::call_site());
                Some(parse_quote!(#f(#r)))
            }
            // comparison with `Some(&L)` of the first element
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && first_lit(b).is_some() => {
                let (x, l) = first_lit(b).unwrap();
                Some(match b.op {
                    BinOp::Eq(_) => parse_quote!(vx_first_is(#x, #l)),
                    _ => parse_quote!(!vx_first_is(#x, #l)),
                })
            }
            // comparison of byte strings
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_bytes(&b.left) || is_bytes(&b.right)) => {
                let (l, r) = (&b.left, &b.right);
                Some(match b.op {
                    BinOp::Eq(_) => parse_quote!(vx_seq_eq(&#l, &#r)),
                    _ => parse_quote!(!vx_seq_eq(&#l, &#r)),
                })
            }
            // a comparison of references is the comparison of what they point to
            Expr::Binary(b)
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_))
                    && (plain_ref(&b.left).is_some() || plain_ref(&b.right).is_some()) =>
            {
                let side = |e: &Expr| -> Expr {
                    match plain_ref(e) {
                        Some(x) => parse_quote!(&(#x)),
                        None => e.clone(),
                    }
                };
                let (l, r) = (side(&b.left), side(&b.right));
                Some(match b.op {
                    BinOp::Eq(_) => parse_quote!(vx_eq(#l, #r)),
                    _ => parse_quote!(!vx_eq(#l, #r)),
                })
            }
            // E.iter().any(|&x| x != L)
            Expr::MethodCall(m) if m.method == "any" && m.args.len() == 1 => (|| {
                let Expr::MethodCall(i) = strip(&m.receiver) else { return None };
                let Expr::Closure(c) = strip(&m.args[0]) else { return None };
                let Expr::Binary(b) = strip(&c.body) else { return None };
                if i.method != "iter" || c.inputs.len() != 1 || !matches!(strip(&b.right), Expr::Lit(_)) {
                    return None;
                }
                let want = match &c.inputs[0] {
                    Pat::Reference(p) => toks(&p.pat),
                    Pat::Ident(p) => format!("* {}", p.ident),
                    _ => return None,
                };
                let (x, v) = (&i.receiver, &b.right);
                match b.op {
                    BinOp::Ne(_) if toks(&b.left) == want => Some(parse_quote!(vx_any_ne(&#x, #v))),
                    _ => None,
                }
            })(),
            Expr::MethodCall(m) if m.method == "first" && m.args.is_empty() => {
                let r = &m.receiver;
                Some(parse_quote!(vx_first(&#r)))
            }
            // E.get(a..)
            Expr::MethodCall(m) if m.method == "get" && m.args.len() == 1 => match strip(&m.args[0]) {
                Expr::Range(ExprRange { start: Some(a), end: None, .. }) => {
                    let r = &m.receiver;
                    Some(parse_quote!(vx_get_from(&#r, #a)))
                }
                Expr::Range(ExprRange { start: None, end: Some(a), limits: RangeLimits::HalfOpen(_), .. }) => {
                    let r = &m.receiver;
                    Some(parse_quote!(vx_get_to(&#r, #a)))
                }
                Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => {
                    let r = &m.receiver;
                    Some(parse_quote!(vx_get_range(&#r, #a, #b)))
                }
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "ok_or" && m.args.len() == 1 => {
                let (r, x) = (&m.receiver, &m.args[0]);
                let t = self.tmp();
                Some(parse_quote!({ let #t = #r; match #t { Some(vxv) => Ok(vxv), None => Err(#x) } }))
            }
            Expr::MethodCall(m) if m.method == "ok" && m.args.is_empty() => {
                let r = &m.receiver;
                let t = self.tmp();
                Some(parse_quote!({ let #t = #r; match #t { Ok(vxv) => Some(vxv), Err(_) => None } }))
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let v = b.value();
                let l: Vec<LitInt> = v
                    .iter()
                    .map(|x| LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site()))
                    .collect();
                Some(parse_quote!(&[#(#l),*]))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// `&e`, with `e` not a sub-slice
fn plain_ref(e: &Expr) -> Option<&Expr> {
    match e {
        Expr::Paren(p) => plain_ref(&p.expr),
        Expr::Reference(r) if r.mutability.is_none() => match strip(&r.expr) {
            Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_)) => None,
            Expr::Lit(_) | Expr::Array(_) => None,
            _ => Some(&r.expr),
        },
        _ => None,
    }
}

/// an expression that is known to be a byte string: an encoded integer, or a range of a slice
fn is_bytes(e: &Expr) -> bool {
    match strip(e) {
        Expr::Reference(r) => match strip(&r.expr) {
            // a reference to a constant table
            Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string().chars().all(|c| !c.is_lowercase())).unwrap_or(false),
            x => is_bytes(&x),
        },
        Expr::MethodCall(m) => m.args.is_empty() && m.method.to_string().ends_with("to_be_bytes"),
        Expr::Index(i) => matches!(strip(&i.index), Expr::Range(_)),
        _ => false,
    }
}
/// `X.first() == Some(&L)` (after the rewriting of `first`)
fn first_lit(b: &ExprBinary) -> Option<(Expr, Expr)> {
    let Expr::Call(c) = strip(&b.left) else { return None };
    if toks(&c.func) != "vx_first" {
        return None;
    }
    let Expr::Call(s) = strip(&b.right) else { return None };
    if toks(&s.func) != "Some" {
        return None;
    }
    let Expr::Reference(r) = strip(&s.args[0]) else { return None };
    Some((c.args[0].clone(), (*r.expr).clone()))
}

/// `T::ZERO`, `T::ONE` or `T::NEG_ONE`, possibly behind a reference
fn is_unit(e: &Expr) -> bool {
    match strip(e) {
        Expr::Reference(r) => is_unit(&r.expr),
        Expr::Path(p) => p.path.segments.len() > 1
            && p.path.segments.last().map(|s| matches!(s.ident.to_string().as_str(), "ZERO" | "ONE" | "NEG_ONE" | "MODULUS")).unwrap_or(false),
        _ => false,
    }
}
/// `int` and `nat` are type names in Verus
struct RenInt;
impl VisitMut for RenInt {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "int" || i == "nat" {
            *i = Ident::new(&format!("{i}_"), i.span());
        }
    }
}
fn is_cmp(e: &Expr) -> bool {
    match strip(e) {
        Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => return matches!(strip(&expr), Expr::Call(c) if toks(&c.func) == "vx_eq"),
        Expr::Call(c) if toks(&c.func) == "vx_eq" => return true,
        _ => {}
    }
    matches!(strip(e), Expr::Binary(ExprBinary {
        op: BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_), ..
    }))
}

fn mac_expr(m: &Macro) -> Res<Expr> {
    let name = m.path.segments.last().unwrap().ident.to_string();
    let args = || -> Res<Vec<Expr>> {
        let p = m
            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .map_err(|e| e.to_string())?;
        Ok(p.into_iter().collect())
    };
    let fix = |e: Expr| -> Res<Expr> {
        let mut x = Exprs { chunk_vars: HashMap::new(), err: None, ret_option: false, ntry: 100, mut_refs: vec![] };
        let mut e = e;
        x.visit_expr_mut(&mut e);
        match x.err {
            Some(er) => Err(er),
            None => Ok(e),
        }
    };
    Ok(match name.as_str() {
        "assert" | "debug_assert" => {
            let a = fix(args()?[0].clone())?;
            parse_quote!(vx_assert(#a))
        }
        "assert_ne" | "debug_assert_ne" => {
            let a = args()?;
            let (x, y) = (fix(a[0].clone())?, fix(a[1].clone())?);
            parse_quote!(vx_assert(!(#x == #y)))
        }
        "assert_eq" | "debug_assert_eq" => {
            let a = args()?;
            let (x, y) = (fix(a[0].clone())?, fix(a[1].clone())?);
            parse_quote!(vx_assert(#x == #y))
        }
        "matches" => {
            let (e, pat, g) = m
                .parse_body_with(|i: syn::parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse::<Expr>()?) } else { None };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok((e, p, g))
                })
                .map_err(|e| e.to_string())?;
            let e = fix(e)?;
            match g {
                Some(g) => { let g = fix(g)?; parse_quote!((match #e { #pat if #g => true, _ => false })) }
                None => parse_quote!((match #e { #pat => true, _ => false })),
            }
        }
        "unreachable" | "panic" => parse_quote!(vx_unreachable()),
        "todo" | "unimplemented" => parse_quote!(vx_todo()),
        "vec" => {
            let e: ExprRepeat = syn::parse_str(&format!("[{}]", m.tokens)).map_err(|_| "unsupported macro vec!".to_string())?;
            if norm(&toks(&e.expr)) != "0" {
                return Err("unsupported macro vec!".into());
            }
            let n = fix((*e.len).clone())?;
            parse_quote!(vx_vec_zeros(#n))
        }
        "__vx_ph" | "__vx_inv" => return Ok(parse_quote!(#m)),
        n => return Err(format!("unsupported macro {n}!")),
    })
}

// ---------------------------------------------------------------- iterator sources

#[derive(Clone, Debug)]
struct Place {
    base: Expr,
    off: Option<Expr>,
    len: Option<Expr>,
    checks: Vec<Expr>,
}

impl Place {
    fn new(e: &Expr) -> Place {
        // flatten X[a..b], X[a..], X[..b]
        if let Expr::Index(ix) = strip(e) {
            if let Expr::Range(r) = strip(&ix.index) {
                let inner = Place::new(&ix.expr);
                let ilen = inner.len_expr();
                let mut checks = inner.checks.clone();
                let (off, len): (Option<Expr>, Expr) = match (r.start, r.end) {
                    (Some(a), Some(b)) => {
                        checks.push(parse_quote!((#a) <= (#b) && (#b) <= (#ilen)));
                        (Some((*a).clone()), parse_quote!((#b) - (#a)))
                    }
                    (Some(a), None) => {
                        checks.push(parse_quote!((#a) <= (#ilen)));
                        (Some((*a).clone()), parse_quote!((#ilen) - (#a)))
                    }
                    (None, Some(b)) => {
                        checks.push(parse_quote!((#b) <= (#ilen)));
                        (None, parse_quote!(#b))
                    }
                    (None, None) => (None, ilen),
                };
                let off = match (inner.off, off) {
                    (Some(x), Some(y)) => Some(parse_quote!((#x) + (#y))),
                    (x, y) => x.or(y),
                };
                return Place { base: inner.base, off, len: Some(len), checks };
            }
        }
        if let Expr::Reference(r) = strip(e) {
            return Place::new(&r.expr);
        }
        Place { base: strip(e), off: None, len: None, checks: vec![] }
    }
    fn len_expr(&self) -> Expr {
        match &self.len {
            Some(l) => l.clone(),
            None => {
                let b = &self.base;
                parse_quote!(#b.len())
            }
        }
    }
    fn at(&self, i: &Expr) -> Expr {
        let b = &self.base;
        match &self.off {
            Some(o) => parse_quote!(#b[#o + #i]),
            None => parse_quote!(#b[#i]),
        }
    }
    fn range(&self, s: &Expr, e: &Expr) -> Expr {
        let b = &self.base;
        match &self.off {
            Some(o) => parse_quote!(#b[#o + #s .. #o + #e]),
            None => parse_quote!(#b[#s .. #e]),
        }
    }
}

/// Whether evaluating `e` again while `body` runs gives the same value: literals, paths the body does not assign,
/// `.len()` of a path, and arithmetic on those.
fn stable(e: &Expr, body: &Block) -> bool {
    match strip(e) {
        Expr::Lit(_) => true,
        Expr::Path(p) => match p.path.get_ident() {
            Some(i) => {
                struct A(Ident, bool);
                impl<'x> syn::visit::Visit<'x> for A {
                    fn visit_expr_assign(&mut self, a: &'x ExprAssign) {
                        self.hit(&a.left);
                        syn::visit::visit_expr_assign(self, a);
                    }
                    fn visit_expr_binary(&mut self, a: &'x ExprBinary) {
                        if toks(&a.op).ends_with('=') && !is_cmp(&Expr::Binary(a.clone())) {
                            self.hit(&a.left);
                        }
                        syn::visit::visit_expr_binary(self, a);
                    }
                    fn visit_expr_reference(&mut self, a: &'x ExprReference) {
                        if a.mutability.is_some() {
                            self.hit(&a.expr);
                        }
                        syn::visit::visit_expr_reference(self, a);
                    }
                }
                impl A {
                    fn hit(&mut self, e: &Expr) {
                        if let Expr::Path(p) = strip(e) {
                            if p.path.get_ident() == Some(&self.0) {
                                self.1 = true;
                            }
                        }
                        if matches!(strip(e), Expr::Tuple(_) | Expr::Array(_)) {
                            self.1 = true;
                        }
                    }
                }
                let mut a = A(i.clone(), false);
                syn::visit::Visit::visit_block(&mut a, body);
                !a.1
            }
            None => true,
        },
        Expr::Binary(b) => stable(&b.left, body) && stable(&b.right, body),
        Expr::Paren(b) => stable(&b.expr, body),
        Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => matches!(strip(&m.receiver), Expr::Path(_) | Expr::Field(_) | Expr::Index(_)),
        _ => false,
    }
}

#[derive(Clone, Debug)]
enum Src {
    IterMut(Place),
    Iter(Place),
    Val(Place),
    Chunks { p: Place, n: Expr, exact: bool, mutable: bool, rev: bool },
    Range(Expr, Expr),
    Zip(Box<Src>, Box<Src>),
    Enumerate(Box<Src>),
    Rev(Box<Src>),
}

struct Ctx<'a> {
    chunk_vars: HashMap<String, (Expr, Expr)>,
    param_kind: HashMap<String, bool>, // true: &mut
    next_loop: usize,
    next_tmp: usize,
    fs: &'a FnSpec,
    err: Option<String>,
}

impl<'a> Ctx<'a> {
    fn src(&self, e: &Expr) -> Res<Src> {
        match strip(e) {
            Expr::Range(ExprRange { start: Some(a), end: Some(b), limits, .. }) => {
                if let RangeLimits::HalfOpen(_) = limits {
                    Ok(Src::Range((*a).clone(), (*b).clone()))
                } else {
                    Ok(Src::Range((*a).clone(), parse_quote!((#b) + 1)))
                }
            }
            Expr::MethodCall(m) => {
                let r = &*m.receiver;
                let name = m.method.to_string();
                match name.as_str() {
                    "iter_mut" => Ok(Src::IterMut(Place::new(r))),
                    "iter" => Ok(Src::Iter(Place::new(r))),
                    "into_iter" => match self.src(r) {
                        Ok(s) => Ok(s),
                        Err(_) => Ok(Src::Val(Place::new(r))),
                    },
                    "copied" | "cloned" => match self.src(r)? {
                        Src::Iter(p) => Ok(Src::Val(p)),
                        _ => Err("copied() on unsupported source".into()),
                    },
                    "chunks_exact" | "chunks_exact_mut" | "chunks" | "chunks_mut"
                    | "rchunks_exact" => Ok(Src::Chunks {
                        p: Place::new(r),
                        n: m.args[0].clone(),
                        exact: name.contains("exact"),
                        mutable: name.ends_with("mut"),
                        rev: name.starts_with('r'),
                    }),
                    "zip" => Ok(Src::Zip(Box::new(self.src(r)?), Box::new(self.src(&m.args[0])?))),
                    "enumerate" => Ok(Src::Enumerate(Box::new(self.src(r)?))),
                    "rev" => Ok(Src::Rev(Box::new(self.src(r)?))),
                    n => Err(format!("unsupported iterator adapter .{n}()")),
                }
            }
            Expr::Path(p) if p.path.get_ident().is_some() => {
                let n = p.path.get_ident().unwrap().to_string();
                if let Some((b, k)) = self.chunk_vars.get(&n) {
                    return Ok(Src::Chunks {
                        p: Place::new(b),
                        n: k.clone(),
                        exact: true,
                        mutable: false,
                        rev: false,
                    });
                }
                Ok(match self.param_kind.get(&n) {
                    Some(true) => Src::IterMut(Place::new(e)),
                    Some(false) => Src::Iter(Place::new(e)),
                    None => Src::Val(Place::new(e)),
                })
            }
            Expr::Reference(r) => Ok(if r.mutability.is_some() {
                Src::IterMut(Place::new(&r.expr))
            } else {
                Src::Iter(Place::new(&r.expr))
            }),
            Expr::Field(_) | Expr::Index(_) => Ok(Src::Val(Place::new(e))),
            e => Err(format!("unsupported loop source: {}", toks(&e))),
        }
    }

    fn checks(&self, s: &Src, out: &mut Vec<Expr>) {
        match s {
            Src::IterMut(p) | Src::Iter(p) | Src::Val(p) | Src::Chunks { p, .. } => {
                out.extend(p.checks.iter().cloned())
            }
            Src::Zip(a, b) => {
                self.checks(a, out);
                self.checks(b, out);
            }
            Src::Enumerate(a) | Src::Rev(a) => self.checks(a, out),
            Src::Range(..) => {}
        }
    }

    fn len(&self, s: &Src) -> Expr {
        match s {
            Src::IterMut(p) | Src::Iter(p) | Src::Val(p) => p.len_expr(),
            Src::Chunks { p, n, exact, .. } => {
                let l = p.len_expr();
                if *exact {
                    parse_quote!((#l) / (#n))
                } else {
                    parse_quote!(vx_div_ceil(#l, #n))
                }
            }
            Src::Range(a, b) => parse_quote!(vx_range_len(#a, #b)),
            Src::Zip(a, b) => {
                let (x, y) = (self.len(a), self.len(b));
                parse_quote!(vx_min(#x, #y))
            }
            Src::Enumerate(a) | Src::Rev(a) => self.len(a),
        }
    }

    /// Binds pattern `pat` to item `ix` of `s`: statements to prepend, and place substitutions.
    fn bind(
        &self,
        s: &Src,
        ix: &Expr,
        pat: &Pat,
        stmts: &mut Vec<Stmt>,
        subst: &mut Vec<(String, Expr)>,
    ) -> Res<()> {
        match s {
            Src::IterMut(p) => match pat {
                Pat::Ident(i) if i.subpat.is_none() => {
                    subst.push((i.ident.to_string(), p.at(ix)));
                    Ok(())
                }
                Pat::Wild(_) => Ok(()),
                p => Err(format!("unsupported iter_mut pattern {}", toks(p))),
            },
            Src::Iter(p) => match pat {
                Pat::Ident(i) if i.subpat.is_none() => {
                    subst.push((i.ident.to_string(), p.at(ix)));
                    Ok(())
                }
                Pat::Reference(r) => {
                    let (pp, v) = (&r.pat, p.at(ix));
                    stmts.push(parse_quote!(let #pp = #v;));
                    Ok(())
                }
                Pat::Wild(_) => Ok(()),
                p => Err(format!("unsupported iter pattern {}", toks(p))),
            },
            Src::Val(p) => {
                let v = p.at(ix);
                stmts.push(parse_quote!(let #pat = #v;));
                Ok(())
            }
            Src::Range(a, _) => {
                let st: Stmt = if norm(&toks(a)) == "0" {
                    parse_quote!(let #pat = #ix;)
                } else {
                    parse_quote!(let #pat = #a + #ix;)
                };
                stmts.push(st);
                Ok(())
            }
            Src::Chunks { p, n, exact, mutable, rev } => {
                let l = p.len_expr();
                let (a, b): (Expr, Expr) = if *rev {
                    (
                        parse_quote!(#l - #ix * #n - #n),
                        parse_quote!(#l - #ix * #n),
                    )
                } else if *exact {
                    (parse_quote!(#ix * #n), parse_quote!(#ix * #n + #n))
                } else {
                    (parse_quote!(#ix * #n), parse_quote!(vx_chunk_hi(#l, #ix * #n, #n)))
                };
                let r = p.range(&a, &b);
                if let (true, Pat::Ident(i)) = (*mutable, pat) {
                    // the bounds are evaluated before the place is borrowed
                    let (lo, hi) = (id(&format!("vxlo_{}", i.ident)), id(&format!("vxhi_{}", i.ident)));
                    stmts.push(parse_quote!(let #lo: usize = #a;));
                    stmts.push(parse_quote!(let #hi: usize = #b;));
                    let r = p.range(&parse_quote!(#lo), &parse_quote!(#hi));
                    subst.push((i.ident.to_string(), r));
                } else {
                    stmts.push(parse_quote!(let #pat = &#r;));
                }
                Ok(())
            }
            Src::Enumerate(a) => match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => {
                    let p0 = &t.elems[0];
                    stmts.push(parse_quote!(let #p0 = #ix;));
                    self.bind(a, ix, &t.elems[1], stmts, subst)
                }
                p => Err(format!("unsupported enumerate pattern {}", toks(p))),
            },
            Src::Zip(a, b) => match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => {
                    self.bind(a, ix, &t.elems[0], stmts, subst)?;
                    self.bind(b, ix, &t.elems[1], stmts, subst)
                }
                p => Err(format!("unsupported zip pattern {}", toks(p))),
            },
            Src::Rev(a) => {
                let l = self.len(a);
                let ix2: Expr = parse_quote!((#l - 1 - #ix));
                // bind once so that the arithmetic is evaluated a single time
                self.bind(a, &ix2, pat, stmts, subst)
            }
        }
    }

    fn ph(&self, key: &str) -> Stmt {
        let l = LitStr::new(key, proc_macro2::Span::call_site());
        parse_quote!(__vx_ph!(#l);)
    }
    fn inv(&self, k: usize) -> Stmt {
        let l = LitStr::new(&format!("{k}"), proc_macro2::Span::call_site());
        parse_quote!(__vx_inv!(#l);)
    }

    fn for_loop(&mut self, pat: &Pat, expr: &Expr, body: &Block, k: usize, out: &mut Vec<Stmt>) -> Res<()> {
        let ixn = id(&format!("ix{k}"));
        let nxn = id(&format!("nx{k}"));
        let mut inner: Vec<Stmt> = vec![];
        out.push(self.ph(&format!("pre{k}")));
        // an iterator of the crate's own: call its `next` until it gives `None`
        if let Expr::MethodCall(m) = strip(expr) {
            if m.method == "by_ref" && m.args.is_empty() {
                let it = &m.receiver;
                inner.push(self.inv(k));
                inner.push(self.ph(&format!("start{k}")));
                inner.push(parse_quote!(let #pat = match #it.next() { Some(vxv) => vxv, None => break };));
                inner.push(self.ph(&format!("item{k}")));
                inner.extend(self.block(body)?.stmts.into_iter().map(semi));
                inner.push(self.ph(&format!("end{k}")));
                out.push(parse_quote!(loop { #(#inner)* }));
                out.push(self.ph(&format!("post{k}")));
                return Ok(());
            }
        }
        let s = self.src(expr)?;
        // plain ranges keep their own bounds
        let (range, rev) = match &s {
            Src::Range(a, b) => (Some((a.clone(), b.clone())), false),
            Src::Rev(x) => match &**x {
                Src::Range(a, b) => (Some((a.clone(), b.clone())), true),
                _ => (None, false),
            },
            _ => (None, false),
        };
        if let Some((a, b)) = range {
            let lo = id(&format!("lo{k}"));
            if rev {
                // lo <= ix, item is ix - 1
                out.push(parse_quote!(let #lo: usize = #a;));
                out.push(parse_quote!(let mut #ixn: usize = #b;));
                inner.push(self.inv(k));
                inner.push(parse_quote!(#ixn = #ixn - 1;));
                inner.push(parse_quote!(let #pat = #ixn;));
                inner.push(self.ph(&format!("start{k}")));
                inner.extend(self.block(body)?.stmts.into_iter().map(semi));
                inner.push(self.ph(&format!("end{k}")));
                out.push(parse_quote!(while #ixn > #lo { #(#inner)* }));
            } else {
                out.push(parse_quote!(let mut #ixn: usize = #a;));
                out.push(parse_quote!(let #nxn: usize = #b;));
                inner.push(self.inv(k));
                inner.push(parse_quote!(let #pat = #ixn;));
                inner.push(parse_quote!(#ixn = #ixn + 1;));
                inner.push(self.ph(&format!("start{k}")));
                inner.extend(self.block(body)?.stmts.into_iter().map(semi));
                inner.push(self.ph(&format!("end{k}")));
                out.push(parse_quote!(while #ixn < #nxn { #(#inner)* }));
            }
        } else {
            let mut s = s;
            self.hoist(&mut s, body, &format!("{k}"), out);
            let mut checks = vec![];
            self.checks(&s, &mut checks);
            for c in checks {
                out.push(parse_quote!(vx_assert(#c);));
            }
            let n = self.len(&s);
            out.push(parse_quote!(let mut #ixn: usize = 0;));
            out.push(parse_quote!(let #nxn: usize = #n;));
            inner.push(self.inv(k));
            let mut subst = vec![];
            let jx = id(&format!("jx{k}"));
            inner.push(parse_quote!(let #jx: usize = #ixn;));
            let ixe: Expr = parse_quote!(#jx);
            self.bind(&s, &ixe, pat, &mut inner, &mut subst)?;
            inner.push(parse_quote!(#ixn = #ixn + 1;));
            inner.push(self.ph(&format!("start{k}")));
            let mut b = body.clone();
            let mut sv = Subst { map: subst.into_iter().collect() };
            sv.visit_block_mut(&mut b);
            inner.extend(self.block(&b)?.stmts.into_iter().map(semi));
            inner.push(self.ph(&format!("end{k}")));
            out.push(parse_quote!(while #ixn < #nxn { #(#inner)* }));
        }
        out.push(self.ph(&format!("post{k}")));
        Ok(())
    }

    /// The bounds of an iterated slice are evaluated once, before the loop: bind those that the body could change.
    fn hoist(&mut self, s: &mut Src, body: &Block, k: &str, out: &mut Vec<Stmt>) {
        match s {
            Src::Zip(a, b) => {
                self.hoist(a, body, k, out);
                self.hoist(b, body, &format!("{k}b"), out);
            }
            Src::Enumerate(a) | Src::Rev(a) => self.hoist(a, body, k, out),
            Src::Range(..) => {}
            Src::IterMut(p) | Src::Iter(p) | Src::Val(p) | Src::Chunks { p, .. } => {
                let exprs: Vec<Expr> = p.off.iter().chain(p.len.iter()).cloned().collect();
                if exprs.iter().all(|e| stable(e, body)) {
                    return;
                }
                for c in std::mem::take(&mut p.checks) {
                    out.push(parse_quote!(vx_assert(#c);));
                }
                for (x, nm) in [(&mut p.off, "off"), (&mut p.len, "len")] {
                    if let Some(e) = x {
                        let n = id(&format!("vx{nm}{k}"));
                        let v = e.clone();
                        out.push(parse_quote!(let #n: usize = #v;));
                        *e = parse_quote!(#n);
                    }
                }
            }
        }
    }

    fn tmp(&mut self) -> Ident {
        self.next_tmp += 1;
        id(&format!("vxt{}", self.next_tmp))
    }

    fn assign_pat(&mut self, left: &Expr, val: Expr, out: &mut Vec<Stmt>) {
        match left {
            Expr::Tuple(t) => {
                for (i, l) in t.elems.iter().enumerate() {
                    let n = Index::from(i);
                    let v: Expr = parse_quote!(#val.#n);
                    self.assign_pat(l, v, out);
                }
            }
            Expr::Array(t) => {
                for (i, l) in t.elems.iter().enumerate() {
                    let n = crate::consts::lit_usize(i as u128);
                    let v: Expr = parse_quote!(#val[#n]);
                    self.assign_pat(l, v, out);
                }
            }
            Expr::Infer(_) => {}
            l => out.push(parse_quote!(#l = #val;)),
        }
    }

    fn block(&mut self, b: &Block) -> Res<Block> {
        let mut out: Vec<Stmt> = vec![];
        for st in &b.stmts {
            let key = norm(&toks(st));
            // user anchors
            let mut after = vec![];
            for (i, (pat, _, aft, _)) in self.fs.at.iter().enumerate() {
                if key.starts_with(&norm(pat)) {
                    let p = self.ph(&format!("at{i}"));
                    if *aft {
                        after.push(p);
                    } else {
                        out.push(p);
                    }
                }
            }
            self.stmt(st, &mut out)?;
            out.extend(after);
        }
        Ok(Block { brace_token: b.brace_token, stmts: out })
    }

    fn stmt(&mut self, st: &Stmt, out: &mut Vec<Stmt>) -> Res<()> {
        match st {
            Stmt::Local(l) => {
                // let blocks = X.chunks_exact(n);
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::MethodCall(m) = strip(&init.expr) {
                        if m.method == "chunks_exact" {
                            let base = (*m.receiver).clone();
                            let n = m.args[0].clone();
                            // the borrowed slice cannot change while the iterator is live; bind it
                            let nm = id(&format!("{}_slice", i.ident));
                            let b2 = as_slice_arg(&base);
                            out.push(parse_quote!(let #nm = #b2;));
                            self.chunk_vars
                                .insert(i.ident.to_string(), (parse_quote!(#nm), n));
                            return Ok(());
                        }
                    }
                }
                let mut l = l.clone();
                if let Some(init) = &mut l.init {
                    self.expr(&mut init.expr)?;
                    if let Some((_, e)) = &mut init.diverge {
                        self.expr(e)?;
                    }
                }
                // let [mut a, b] = e;
                if let Pat::Slice(s) = &l.pat {
                    let t = self.tmp();
                    let init = l.init.as_ref().ok_or("slice pattern without init")?;
                    let e = &init.expr;
                    out.push(parse_quote!(let #t = #e;));
                    for (i, p) in s.elems.iter().enumerate() {
                        let n = crate::consts::lit_usize(i as u128);
                        out.push(parse_quote!(let #p = #t[#n];));
                    }
                    return Ok(());
                }
                out.push(Stmt::Local(l));
                Ok(())
            }
            Stmt::Expr(e, semi_tok) => {
                match e {
                    Expr::Assign(a) if matches!(&*a.left, Expr::Tuple(_) | Expr::Array(_)) => {
                        let mut r = (*a.right).clone();
                        self.expr(&mut r)?;
                        let t = self.tmp();
                        out.push(parse_quote!(let #t = #r;));
                        let te: Expr = parse_quote!(#t);
                        self.assign_pat(&a.left, te, out);
                        Ok(())
                    }
                    Expr::ForLoop(f) => {
                        let k = self.next_loop;
                        self.next_loop += 1;
                        self.for_loop(&f.pat, &f.expr, &f.body, k, out)
                    }
                    Expr::MethodCall(m) if m.method == "for_each" => {
                        if let Expr::Closure(c) = &m.args[0] {
                            let k = self.next_loop;
                            self.next_loop += 1;
                            let body = match &*c.body {
                                Expr::Block(b) => b.block.clone(),
                                e => parse_quote!({ #e; }),
                            };
                            return self.for_loop(&c.inputs[0], &m.receiver, &body, k, out);
                        }
                        Err("for_each without closure".into())
                    }
                    Expr::While(w) => {
                        let k = self.next_loop;
                        self.next_loop += 1;
                        let mut w = w.clone();
                        self.expr(&mut w.cond)?;
                        let b = self.block(&w.body)?;
                        let mut inner = vec![self.inv(k), self.ph(&format!("start{k}"))];
                        inner.extend(b.stmts.into_iter().map(semi));
                        inner.push(self.ph(&format!("end{k}")));
                        w.body.stmts = inner;
                        out.push(self.ph(&format!("pre{k}")));
                        out.push(Stmt::Expr(Expr::While(w), None));
                        out.push(self.ph(&format!("post{k}")));
                        Ok(())
                    }
                    Expr::Loop(w) => {
                        let k = self.next_loop;
                        self.next_loop += 1;
                        let mut w = w.clone();
                        let b = self.block(&w.body)?;
                        let mut inner = vec![self.inv(k), self.ph(&format!("start{k}"))];
                        inner.extend(b.stmts.into_iter().map(semi));
                        inner.push(self.ph(&format!("end{k}")));
                        w.body.stmts = inner;
                        out.push(self.ph(&format!("pre{k}")));
                        out.push(Stmt::Expr(Expr::Loop(w), *semi_tok));
                        if semi_tok.is_some() {
                            out.push(self.ph(&format!("post{k}")));
                        }
                        Ok(())
                    }
                    e => {
                        let mut e = e.clone();
                        self.expr(&mut e)?;
                        out.push(Stmt::Expr(e, *semi_tok));
                        Ok(())
                    }
                }
            }
            Stmt::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n.starts_with("__vx") {
                    out.push(st.clone());
                    return Ok(());
                }
                let e = mac_expr(&m.mac)?;
                out.push(Stmt::Expr(e, m.semi_token));
                Ok(())
            }
            Stmt::Item(Item::Use(u)) => {
                out.push(Stmt::Item(Item::Use(u.clone())));
                Ok(())
            }
            Stmt::Item(Item::Const(_)) => {
                out.push(st.clone());
                Ok(())
            }
            Stmt::Item(_) => Err("nested item".into()),
        }
    }

    /// Descends into nested blocks of an expression.
    fn expr(&mut self, e: &mut Expr) -> Res<()> {
        struct D<'b, 'a>(&'b mut Ctx<'a>, Option<String>);
        impl<'b, 'a> VisitMut for D<'b, 'a> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                match self.0.block(b) {
                    Ok(n) => *b = n,
                    Err(e) => self.1 = Some(e),
                }
            }
            fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {
                self.1 = Some("for loop in expression position".into());
            }
        }
        let mut d = D(self, None);
        d.visit_expr_mut(e);
        match d.1 {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}

fn semi(s: Stmt) -> Stmt {
    match s {
        Stmt::Expr(e, None) => match e {
            Expr::If(_) | Expr::While(_) | Expr::Loop(_) | Expr::Match(_) | Expr::Block(_) => {
                Stmt::Expr(e, None)
            }
            e => Stmt::Expr(e, Some(Default::default())),
        },
        s => s,
    }
}

struct Subst {
    map: HashMap<String, Expr>,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if let Expr::Path(p) = &**expr {
                    if let Some(i) = p.path.get_ident() {
                        if let Some(r) = self.map.get(&i.to_string()) {
                            *e = r.clone();
                            return;
                        }
                    }
                }
            }
            // the length of a chunk is the difference of its bounds
            Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => {
                if let Expr::Path(p) = &*m.receiver {
                    if let Some(i) = p.path.get_ident() {
                        if let Some(Expr::Index(x)) = self.map.get(&i.to_string()) {
                            if let Expr::Range(_) = &*x.index {
                                let (lo, hi) = (id(&format!("vxlo_{i}")), id(&format!("vxhi_{i}")));
                                *e = parse_quote!((#hi - #lo));
                                return;
                            }
                        }
                    }
                }
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(r) = self.map.get(&i.to_string()) {
                        *e = r.clone();
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            *p = parse_quote!(vx_self);
        }
    }
}

struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

/// Vacuity guard: an assertion of an uninterpreted fact that the verifier must not be able to prove.
/// `a == b` becomes `vx_eq(&a, &b)`, unless one side is a literal
struct AllEq(Ident);
impl VisitMut for AllEq {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Binary(b) = e else { return };
        let lit = |e: &Expr| matches!(strip(e), Expr::Lit(_));
        if !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) || lit(&b.left) || lit(&b.right) {
            return;
        }
        let (l, r, f) = (strip(&b.left), strip(&b.right), &self.0);
        *e = match b.op {
            BinOp::Eq(_) => parse_quote!(#f(&(#l), &(#r))),
            _ => parse_quote!(!#f(&(#l), &(#r))),
        };
    }
}

/// `B[range]` on a boxed slice B becomes `vx_sm(&mut B)[range]` (`vx_s(&B)` behind a shared `self`).
struct Boxed<'a> {
    places: &'a [String],
    shared: bool,
}
impl VisitMut for Boxed<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Index(i) = e {
            if matches!(&*i.index, Expr::Range(_)) && self.places.iter().any(|p| norm(p) == norm(&toks(&i.expr))) {
                let b = i.expr.clone();
                let shared = self.shared && norm(&toks(&b)).starts_with("self");
                *i.expr = if shared { parse_quote!(vx_s(&#b)) } else { parse_quote!(vx_sm(&mut #b)) };
            }
        }
    }
}

fn canary(k: usize) -> String {
    match std::env::var("VX_CANARY") {
        Ok(_) => format!("\nproof {{ assert(vx_canary({k})); }}\n"),
        Err(_) => String::new(),
    }
}

fn signature(sig: &Signature, fs: &FnSpec) -> String {
    let mut sg = String::new();
    if let Some(s) = &fs.sig {
        sg.push_str(s);
    } else {
        let name = fs.rename.clone().unwrap_or(sig.ident.to_string());
        let gen = toks(&sig.generics);
        let ins = toks(&sig.inputs);
        sg.push_str(&format!("fn {name}{gen}({ins})"));
        if let ReturnType::Type(_, t) = &sig.output {
            sg.push_str(&format!(" -> ({}: {})", fs.ret, toks(t)));
        }
        if let Some(w) = &sig.generics.where_clause {
            sg.push_str(&format!(" {}", toks(w)));
        }
        for (from, to) in &fs.rewrites {
            sg = crate::apply_rewrite(&sg, from, to);
        }
    }
    sg
}

/// Whether a pattern binds a variable by mutable reference.
fn binds_mut(p: &Pat) -> bool {
    struct B(bool);
    impl<'a> syn::visit::Visit<'a> for B {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            self.0 |= i.by_ref.is_some() && i.mutability.is_some();
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut b = B(false);
    syn::visit::Visit::visit_pat(&mut b, p);
    b.0
}
/// A function nested in a function, with one expression as its body: calls become that expression, its parameters bound.
struct Inline(HashMap<String, (Vec<Pat>, Expr)>);
impl VisitMut for Inline {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Call(c) = e else { return };
        let Expr::Path(p) = &*c.func else { return };
        let Some((ps, body)) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) else { return };
        if ps.len() == c.args.len() {
            let a: Vec<&Expr> = c.args.iter().collect();
            *e = parse_quote!({ #(let #ps = #a;)* #body });
        }
    }
}
fn inline_nested(block: &mut Block) {
    let mut m = HashMap::new();
    block.stmts.retain(|s| {
        let Stmt::Item(Item::Fn(f)) = s else { return true };
        let [Stmt::Expr(b, None)] = &f.block.stmts[..] else { return true };
        if !f.sig.generics.params.is_empty() {
            return true;
        }
        let mut ps = vec![];
        for a in &f.sig.inputs {
            match a {
                FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                    (Pat::Ident(i), ty) => ps.push((i.clone(), ty.clone())),
                    _ => return true,
                },
                _ => return true,
            }
        }
        let pats = ps.iter().map(|(i, ty)| {
            let l: Stmt = parse_quote!(let #i: #ty = 0;);
            match l {
                Stmt::Local(l) => l.pat,
                _ => unreachable!(),
            }
        }).collect();
        m.insert(f.sig.ident.to_string(), (pats, b.clone()));
        false
    });
    if !m.is_empty() {
        Inline(m).visit_block_mut(block);
    }
}

pub fn emit(mut sig: Signature, mut block: Block, fs: &FnSpec, env: &Env) -> Res<String> {
    let mut env = env.clone();
    env.self_ty = fs.owner.split(" for ").last().map(|s| s.split('<').next().unwrap().to_string());
    Strip.visit_signature_mut(&mut sig);
    Strip.visit_block_mut(&mut block);
    RenInt.visit_signature_mut(&mut sig);
    RenInt.visit_block_mut(&mut block);
    inline_nested(&mut block);
    Fold(&env).visit_signature_mut(&mut sig);
    Fold(&env).visit_block_mut(&mut block);

    if fs.assumed.is_some() {
        // the body is verified elsewhere: parameters lose their `mut`, nothing else of the body is needed
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) if r.reference.is_none() => r.mutability = None,
                FnArg::Typed(t) => {
                    if let Pat::Ident(i) = &mut *t.pat {
                        i.mutability = None;
                    }
                }
                _ => {}
            }
        }
    }
    if let Some(f) = &fs.vxeq {
        AllEq(Ident::new(f, proc_macro2::Span::call_site())).visit_block_mut(&mut block);
    }
    if !fs.boxed.is_empty() {
        let shared = matches!(sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_some() && r.mutability.is_none());
        Boxed { places: &fs.boxed, shared }.visit_block_mut(&mut block);
    }
    sig.constness = None;
    sig.unsafety = None;
    let mut entry: Vec<Stmt> = vec![];
    let mut param_kind = HashMap::new();
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    entry.push(parse_quote!(let mut vx_self = self;));
                    SelfRename.visit_block_mut(&mut block);
                }
            }
            FnArg::Typed(t) => {
                if let Pat::Ident(i) = &mut *t.pat {
                    if let Type::Reference(r) = &*t.ty {
                        param_kind.insert(i.ident.to_string(), r.mutability.is_some());
                    }
                    if i.mutability.is_some() {
                        i.mutability = None;
                        let n = &i.ident;
                        entry.push(parse_quote!(let mut #n = #n;));
                    }
                }
            }
        }
    }
    if let Some(by) = &fs.assumed {
        sig.constness = None;
        sig.unsafety = None;
        let sg = signature(&sig, fs);
        let attrs: String = fs.attrs.lines().filter(|l| !l.contains("spinoff_prover") && !l.contains("rlimit") && !l.contains("exec_allows")).collect();
        return Ok(format!(
            "#[verifier::external_body] /* verified in template {by} */ {attrs} {}{}\n{}\n{{ unimplemented!() }}\n",
            if fs.nopub { "" } else { "pub " }, sg.trim(), fs.spec
        ));
    }
    let mut ctx = Ctx {
        chunk_vars: HashMap::new(),
        param_kind,
        next_loop: 0,
        next_tmp: 0,
        fs,
        err: None,
    };
    let mut b = ctx.block(&block)?;
    if let Some(e) = ctx.err {
        return Err(e);
    }
    if let Some(n) = fs.nloops {
        if n != ctx.next_loop {
            return Err(format!("lost anchor: {} loops, contract written for {}", ctx.next_loop, n));
        }
    }
    if let Some((k, _)) = fs.loops.iter().next_back() {
        if *k >= ctx.next_loop {
            return Err(format!("lost anchor: loop {k} does not exist"));
        }
    }
    let mut stmts = vec![ctx.ph("header")];
    stmts.extend(entry);
    stmts.push(ctx.ph("entry"));
    // exit proof goes before the tail expression
    // (a call at the end of a function without result is a statement)
    if let (ReturnType::Default, Some(Stmt::Expr(Expr::Call(_) | Expr::MethodCall(_), semi @ None))) = (&sig.output, b.stmts.last_mut()) {
        *semi = Some(Default::default());
    }
    let tail = match b.stmts.last() {
        Some(Stmt::Expr(Expr::If(_) | Expr::Match(_), None)) if matches!(sig.output, ReturnType::Default) => None,
        Some(Stmt::Expr(_, None)) => b.stmts.pop(),
        _ => None,
    };
    let ends_in_return = matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
    stmts.extend(b.stmts);
    stmts.push(ctx.ph("exit"));
    stmts.extend(tail);
    let mut b = Block { brace_token: b.brace_token, stmts };
    let ret_option = match &sig.output {
        ReturnType::Type(_, t) => toks(t).trim_start().starts_with("Option"),
        _ => false,
    };
    let mut x = Exprs { chunk_vars: ctx.chunk_vars.clone(), err: None, ret_option, ntry: 0,
        mut_refs: ctx.param_kind.iter().filter(|(_, m)| **m).map(|(n, _)| n.clone()).collect() };
    x.visit_block_mut(&mut b);
    if let Some(e) = x.err {
        return Err(e);
    }

    if !fs.ret_proof.is_empty() {
        AtReturn(ctx.ph("return")).visit_block_mut(&mut b);
    }

    // print
    let mut s = crate::pretty(&toks(&b));
    for (from, to) in &fs.rewrites {
        s = crate::apply_rewrite(&s, from, to);
    }
    let mut used = vec![0usize; fs.at.len()];
    let mut out = String::new();
    let mut rest = s.as_str();
    loop {
        let p = rest.find("__vx_ph");
        let q = rest.find("__vx_inv");
        let (pos, is_inv) = match (p, q) {
            (None, None) => break,
            (Some(a), Some(b)) if a < b => (a, false),
            (Some(a), None) => (a, false),
            (_, Some(b)) => (b, true),
        };
        let key_start = rest[pos..].find('"').unwrap() + pos + 1;
        let key_end = rest[key_start..].find('"').unwrap() + key_start;
        let key = &rest[key_start..key_end];
        let end = rest[key_end..].find(';').unwrap() + key_end + 1;
        if is_inv {
            let k: usize = key.parse().unwrap();
            let head = rest[..pos].trim_end();
            let head = head.strip_suffix('{').ok_or("internal: loop header")?;
            out.push_str(head);
            match fs.loops.get(&k) {
                Some(l) if !l.inv.trim().is_empty() => {
                    out.push('\n');
                    out.push_str(&l.inv);
                }
                _ => {}
            }
            out.push_str("{\n");
        } else {
            out.push_str(&rest[..pos]);
            let text = if let Some(k) = key.strip_prefix("pre") {
                fs.loops.get(&k.parse().unwrap()).map(|l| l.pre.clone())
            } else if let Some(k) = key.strip_prefix("post") {
                fs.loops.get(&k.parse().unwrap()).map(|l| l.post.clone())
            } else if let Some(k) = key.strip_prefix("item") {
                fs.loops.get(&k.parse().unwrap()).map(|l| l.item.clone())
            } else if let Some(k) = key.strip_prefix("start") {
                fs.loops.get(&k.parse().unwrap()).map(|l| l.start.clone())
            } else if let Some(k) = key.strip_prefix("at") {
                let i: usize = k.parse().unwrap();
                used[i] += 1;
                if used[i] - 1 == fs.at[i].1 {
                    Some(fs.at[i].3.clone())
                } else {
                    None
                }
            } else if key == "header" {
                Some(fs.header.clone())
            } else if key == "return" {
                Some(fs.ret_proof.clone())
            } else if key == "entry" {
                Some(format!("{}{}", fs.entry, canary(0)))
            } else if key == "exit" {
                // nothing is reachable behind a final `return`
                let last = out.trim_end().rsplit(|c| matches!(c, '\n' | '{' | '}')).next().unwrap_or("").trim_start();
                let c = if ends_in_return || last.starts_with("return") { String::new() } else { canary(1) };
                Some(format!("{}{}", fs.exit, c))
            } else if let Some(k) = key.strip_prefix("end") {
                fs.loops.get(&k.parse().unwrap()).map(|l| l.end.clone())
            } else {
                None
            };
            if let Some(t) = text {
                if !t.trim().is_empty() {
                    out.push('\n');
                    out.push_str(&t);
                }
            }
        }
        rest = &rest[end..];
    }
    out.push_str(rest);
    for (i, u) in used.iter().enumerate() {
        if *u <= fs.at[i].1 {
            return Err(format!("lost anchor: statement `{}` not found", fs.at[i].0));
        }
    }

    // signature
    let sg = signature(&sig, fs);
    let blank: String = out
        .lines()
        .filter(|l| !l.trim().is_empty())
        .collect::<Vec<_>>()
        .join("\n");
    // a solver context of its own: smaller, parallel, independent of the other functions
    let spin = if fs.attrs.contains("spinoff_prover") { "" } else { "#[verifier::spinoff_prover]\n" };
    Ok(format!("{spin}{}{}{}\n{}{}\n", fs.attrs, if fs.nopub { "" } else { "pub " }, sg.trim(), fs.spec, blank))
}

/// proof text before every `return`
struct AtReturn(Stmt);
impl syn::visit_mut::VisitMut for AtReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let p = &self.0;
            *e = match &r.expr {
                Some(x) => parse_quote!({ let vxret = #x; #p return vxret; }),
                None => parse_quote!({ #p return; }),
            };
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}
