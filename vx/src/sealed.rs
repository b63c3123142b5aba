//! `sealed`: every value of a struct comes out of its constructor, and no value changes afterwards.
//!
//! A fact the constructor's contract states about the fields then holds of every value there is.
//! The check is syntactic, over the files whose code can see the private fields: the fields are
//! private, nothing derives a way to make a value from parts, a literal of the struct occurs only
//! in the constructor, no method takes the value mutably, no type is a mutable reference to it and
//! no field of that name is assigned or borrowed mutably.
use syn::visit::Visit;

struct V<'a> {
    st: &'a str,
    ctor: &'a str,
    fields: Vec<String>,
    me: bool,
    func: String,
    found: bool,
    err: Option<String>,
}

impl V<'_> {
    fn bad(&mut self, s: String) {
        self.err.get_or_insert(format!("sealed {}: {s}", self.st));
    }
    fn names(&self, p: &syn::Path) -> bool {
        p.segments.last().is_some_and(|s| s.ident == self.st || (self.me && s.ident == "Self"))
    }
    fn field(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Field(f) => {
                let n = match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                self.fields.contains(&n) || self.field(&f.base)
            }
            syn::Expr::Index(i) => self.field(&i.expr),
            syn::Expr::Paren(p) => self.field(&p.expr),
            _ => false,
        }
    }
}

fn test_only(a: &[syn::Attribute]) -> bool {
    a.iter().any(|a| a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("test"))
}

impl<'ast> Visit<'ast> for V<'_> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !test_only(&m.attrs) {
            syn::visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        let was = self.me;
        self.me = matches!(&*i.self_ty, syn::Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == self.st));
        if let (true, Some((_, p, _))) = (self.me, &i.trait_) {
            let n = p.segments.last().unwrap().ident.to_string();
            if ["Default", "DerefMut", "AsMut", "BorrowMut", "IndexMut"].contains(&n.as_str()) {
                self.bad(format!("implements {n}"));
            }
        }
        syn::visit::visit_item_impl(self, i);
        self.me = was;
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        let was = std::mem::replace(&mut self.func, f.sig.ident.to_string());
        if self.me {
            if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
                if r.mutability.is_some() {
                    self.bad(format!("{} takes it mutably", self.func));
                }
            }
        }
        syn::visit::visit_impl_item_fn(self, f);
        self.func = was;
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if test_only(&f.attrs) {
            return;
        }
        let was = std::mem::replace(&mut self.func, format!("fn {}", f.sig.ident));
        syn::visit::visit_item_fn(self, f);
        self.func = was;
    }
    fn visit_item_struct(&mut self, s: &'ast syn::ItemStruct) {
        if s.ident != self.st {
            return;
        }
        self.found = true;
        for f in &s.fields {
            if !matches!(f.vis, syn::Visibility::Inherited) {
                self.bad("a field is public".into());
            }
        }
        for a in &s.attrs {
            let t = quote::quote!(#a).to_string();
            if a.path().is_ident("derive") && (t.contains("Default") || t.contains("Deserialize")) {
                self.bad("derives a constructor".into());
            }
        }
    }
    fn visit_expr_struct(&mut self, e: &'ast syn::ExprStruct) {
        if self.names(&e.path) && !(self.me && self.func == self.ctor) {
            self.bad(format!("{} makes one", self.func));
        }
        syn::visit::visit_expr_struct(self, e);
    }
    fn visit_type_reference(&mut self, t: &'ast syn::TypeReference) {
        if let (Some(_), syn::Type::Path(p)) = (&t.mutability, &*t.elem) {
            if self.names(&p.path) {
                self.bad(format!("{} refers to it mutably", self.func));
            }
        }
        syn::visit::visit_type_reference(self, t);
    }
    fn visit_expr_assign(&mut self, e: &'ast syn::ExprAssign) {
        if self.field(&e.left) {
            self.bad(format!("{} assigns a field", self.func));
        }
        syn::visit::visit_expr_assign(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(e.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_))
            && self.field(&e.left)
        {
            self.bad(format!("{} changes a field", self.func));
        }
        syn::visit::visit_expr_binary(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        if e.mutability.is_some() && self.field(&e.expr) {
            self.bad(format!("{} borrows a field mutably", self.func));
        }
        syn::visit::visit_expr_reference(self, e);
    }
}

pub fn check(items: &[syn::Item], st: &str, ctor: &str) -> Result<(), String> {
    let mut fields = vec![];
    for i in items {
        if let syn::Item::Struct(s) = i {
            if s.ident == st {
                for (k, f) in s.fields.iter().enumerate() {
                    fields.push(f.ident.as_ref().map(|x| x.to_string()).unwrap_or(k.to_string()));
                }
            }
        }
    }
    let mut v = V { st, ctor, fields, me: false, func: String::new(), found: false, err: None };
    for i in items {
        v.visit_item(i);
    }
    match v.err {
        Some(e) => Err(e),
        None if !v.found => Err(format!("sealed {st}: lost anchor: no such struct")),
        None => Ok(()),
    }
}
