//! vx: mechanical extraction of functions from /repo into a Verus file.
//!
//! usage: vx <template.vt> <repo root> <out.rs> <out.map>
//!
//! Everything executable in the output comes from /repo's current sources; the template supplies
//! specifications, loop invariants and proof blocks only.  See DESIGN.md ("What the extraction
//! does") for the list of desugarings.
mod consts;
mod desugar;
mod sealed;
mod template;

use std::collections::HashMap;
use syn::visit_mut::VisitMut;

pub type Res<T> = Result<T, String>;

pub struct Repo {
    root: String,
    files: HashMap<String, syn::File>,
}

impl Repo {
    fn file(&mut self, path: &str) -> Res<&syn::File> {
        if !self.files.contains_key(path) {
            let full = format!("{}/{}", self.root, path);
            let text = std::fs::read_to_string(&full).map_err(|e| format!("{full}: {e}"))?;
            let f = syn::parse_file(&text).map_err(|e| format!("{full}: parse: {e}"))?;
            self.files.insert(path.to_string(), f);
        }
        Ok(&self.files[path])
    }
}

/// Expands every invocation of the single-arm `macro_rules!` macro `name` whose first argument
/// prints as `arg`, and returns the resulting items.
fn expand_macro(file: &syn::File, name: &str, arg: &str) -> Res<Vec<syn::Item>> {
    use proc_macro2::{TokenStream, TokenTree};
    let mut def = None;
    let mut invs: Vec<TokenStream> = vec![];
    for it in &file.items {
        if let syn::Item::Macro(m) = it {
            if m.mac.path.is_ident("macro_rules") {
                if m.ident.as_ref().map(|i| i == name).unwrap_or(false) {
                    def = Some(m.mac.tokens.clone());
                }
            } else if m.mac.path.is_ident(name) {
                invs.push(m.mac.tokens.clone());
            }
        }
    }
    let def = def.ok_or(format!("macro {name} not found"))?;
    let toks: Vec<TokenTree> = def.into_iter().collect();
    // ( $a:frag , ... ) => { body } ;?
    let (params, body) = match (&toks[0], &toks[3]) {
        (TokenTree::Group(p), TokenTree::Group(b)) => (p.stream(), b.stream()),
        _ => return Err(format!("macro {name}: unsupported shape")),
    };
    if toks.len() > 5 {
        return Err(format!("macro {name}: more than one arm"));
    }
    let mut names = vec![];
    let mut it = params.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '$' {
                if let Some(TokenTree::Ident(i)) = it.next() {
                    names.push(i.to_string());
                }
            }
        }
    }
    for inv in invs {
        let mut args: Vec<TokenStream> = vec![TokenStream::new()];
        for t in inv {
            match &t {
                TokenTree::Punct(p) if p.as_char() == ',' => args.push(TokenStream::new()),
                _ => args.last_mut().unwrap().extend([t]),
            }
        }
        if args[0].to_string() != arg {
            continue;
        }
        let env: HashMap<String, TokenStream> = names.iter().cloned().zip(args).collect();
        fn subst(ts: TokenStream, env: &HashMap<String, TokenStream>) -> TokenStream {
            let mut out = TokenStream::new();
            let mut it = ts.into_iter().peekable();
            while let Some(t) = it.next() {
                match t {
                    TokenTree::Punct(ref p) if p.as_char() == '$' => {
                        if let Some(TokenTree::Ident(i)) = it.peek() {
                            if let Some(v) = env.get(&i.to_string()) {
                                out.extend(v.clone());
                                it.next();
                                continue;
                            }
                        }
                        out.extend([t]);
                    }
                    TokenTree::Group(g) => {
                        let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), env));
                        n.set_span(g.span());
                        out.extend([TokenTree::Group(n)]);
                    }
                    t => out.extend([t]),
                }
            }
            out
        }
        let ts = subst(body, &env);
        let f: syn::File = syn::parse2(ts).map_err(|e| format!("macro {name}({arg}): {e}"))?;
        return Ok(f.items);
    }
    Err(format!("macro {name}: no invocation with first argument {arg}"))
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
pub fn toks<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| norm(&toks(a)).contains("cfg(test)") || norm(&toks(a)).contains("turtls_verif"))
}

/// `owner` is `""` for free functions, `Type` for inherent impls (generic args ignored) or
/// `Trait for Type`.
/// `Self::X` inside an impl, where the impl says what X is
struct AssocTypes(std::collections::HashMap<String, syn::Type>);
impl VisitMut for AssocTypes {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        syn::visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(n) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = n.clone();
                }
            }
        }
    }
}
fn find_fn(items: &[syn::Item], owner: &str, name: &str) -> Res<(syn::Signature, syn::Block)> {
    fn last(p: &syn::Path) -> String {
        p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
    }
    fn tyname(t: &syn::Type) -> String {
        match t {
            syn::Type::Path(p) => last(&p.path),
            t => norm(&toks(t)),
        }
    }
    let mut found = vec![];
    for it in items {
        match it {
            syn::Item::Fn(f) if owner.is_empty() && f.sig.ident == name && !is_test(&f.attrs) => {
                found.push((f.sig.clone(), (*f.block).clone()));
            }
            // the value of a constant, as a function without arguments
            syn::Item::Const(c) if owner == "const" && c.ident == name => {
                let (n, ty, e) = (&c.ident, &c.ty, &c.expr);
                let block: syn::Block = match &**e {
                    syn::Expr::Block(b) => b.block.clone(),
                    e => syn::parse_quote!({ #e }),
                };
                found.push((syn::parse_quote!(fn #n() -> #ty), block));
            }
            syn::Item::Trait(t) if owner == format!("trait {}", t.ident) => {
                for ii in &t.items {
                    if let syn::TraitItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                found.push((f.sig.clone(), b.clone()));
                            }
                        }
                    }
                }
            }
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let ty = tyname(&im.self_ty);
                let own = match &im.trait_ {
                    Some((_, p, _)) => format!("{} for {}", last(p), ty),
                    None => ty.clone(),
                };
                let full = match &im.trait_ {
                    Some((_, p, _)) => format!("{} for {}", norm(&toks(p)), norm(&toks(&im.self_ty))),
                    None => norm(&toks(&im.self_ty)),
                };
                // a method may be moved between an inherent impl and a trait impl of the type
                if own == owner || norm(&full) == norm(owner) {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == name && !is_test(&f.attrs) {
                                let mut a = AssocTypes(Default::default());
                                for t in &im.items {
                                    if let syn::ImplItem::Type(t) = t {
                                        a.0.insert(t.ident.to_string(), t.ty.clone());
                                    }
                                }
                                let (mut sig, mut block) = (f.sig.clone(), f.block.clone());
                                a.visit_signature_mut(&mut sig);
                                a.visit_block_mut(&mut block);
                                found.push((sig, block));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match found.len() {
        1 => Ok(found.pop().unwrap()),
        0 => Err(format!("lost anchor: fn {owner}::{name} not found")),
        n => Err(format!("lost anchor: fn {owner}::{name} found {n} times")),
    }
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

/// Breaks the one-line token dump into lines so that verifier errors have useful positions.
pub fn pretty(s: &str) -> String {
    let mut out = String::new();
    let mut depth = 0usize;
    let mut instr = false;
    let mut paren = 0i32;
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '"' && (i == 0 || b[i - 1] != '\\') {
            instr = !instr;
        }
        if instr {
            out.push(c);
            i += 1;
            continue;
        }
        match c {
            '(' | '[' => {
                paren += 1;
                out.push(c)
            }
            ')' | ']' => {
                paren -= 1;
                out.push(c)
            }
            '{' => {
                depth += 1;
                out.push(c);
                out.push('\n');
                out.push_str(&"    ".repeat(depth));
            }
            '}' => {
                depth = depth.saturating_sub(1);
                out.push('\n');
                out.push_str(&"    ".repeat(depth));
                out.push(c);
                out.push('\n');
                out.push_str(&"    ".repeat(depth));
            }
            ';' if paren == 0 => {
                out.push(c);
                out.push('\n');
                out.push_str(&"    ".repeat(depth));
            }
            _ => out.push(c),
        }
        i += 1;
    }
    out
}

fn find_item<'a>(items: &'a [syn::Item], kind: &str, owner: &str, name: &str) -> Res<String> {
    for it in items {
        match (kind, it) {
            ("const", syn::Item::Const(c)) if owner.is_empty() && c.ident == name => {
                let mut c = c.clone();
                StripAttrs.visit_item_const_mut(&mut c);
                c.vis = syn::parse_quote!(pub);
                return Ok(toks(&c));
            }
            ("const", syn::Item::Impl(im)) if !owner.is_empty() => {
                let ty = match &*im.self_ty {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    t => norm(&toks(t)),
                };
                let full = im.trait_.as_ref().map(|t| format!("{} for {ty}", t.1.segments.last().unwrap().ident));
                if ty == owner || full.as_deref() == Some(owner) {
                    for ii in &im.items {
                        if let syn::ImplItem::Const(c) = ii {
                            if c.ident == name {
                                let mut c = c.clone();
                                StripAttrs.visit_impl_item_const_mut(&mut c);
                                return Ok(toks(&c));
                            }
                        }
                    }
                }
            }
            ("struct", syn::Item::Struct(s)) if s.ident == name => {
                let mut s = s.clone();
                StripAttrs.visit_item_struct_mut(&mut s);
                s.vis = syn::parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = syn::parse_quote!(pub);
                }
                return Ok(toks(&s));
            }
            ("type", syn::Item::Type(s)) if s.ident == name => {
                let mut s = s.clone();
                StripAttrs.visit_item_type_mut(&mut s);
                s.vis = syn::parse_quote!(pub);
                return Ok(toks(&s));
            }
            ("enum", syn::Item::Enum(s)) if s.ident == name => {
                let mut s = s.clone();
                StripAttrs.visit_item_enum_mut(&mut s);
                s.vis = syn::parse_quote!(pub);
                return Ok(toks(&s));
            }
            _ => {}
        }
    }
    Err(format!("lost anchor: {kind} {owner} {name} not found"))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match run(&args) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    }
}

fn run(args: &[String]) -> Res<()> {
    let mut repo = Repo { root: args[2].clone(), files: HashMap::new() };
    let t = template::parse(&args[1])?;
    let mut out = String::new();
    let mut map: Vec<String> = vec![];
    let mut env = consts::Env::default();
    let mut cur_line = 1usize;
    let mut rewrites: Vec<(String, String)> = vec![];
    macro_rules! push {
        ($s:expr) => {{
            let s: String = $s;
            cur_line += s.matches('\n').count();
            out.push_str(&s);
        }};
    }
    for seg in t {
        match seg {
            template::Seg::Text(s) => push!(s),
            template::Seg::Consts(file) => {
                let f = repo.file(&file)?;
                env.collect(&f.items);
            }
            template::Seg::MacroConsts(file, m, a) => {
                let f = repo.file(&file)?;
                let items = expand_macro(f, &m, &a)?;
                env.collect(&items);
            }
            template::Seg::Sealed(st, ctor, files) => {
                let mut items: Vec<syn::Item> = vec![];
                let mut last = String::new();
                for w in &files {
                    match w.strip_prefix("macro=") {
                        Some(m) => {
                            let (a, b) = m.split_once(':').ok_or("sealed: macro")?;
                            let f = repo.file(&last)?;
                            items.extend(expand_macro(f, a, b)?);
                        }
                        None => {
                            last = w.clone();
                            items.extend(repo.file(w)?.items.clone());
                        }
                    }
                }
                sealed::check(&items, &st, &ctor)?;
            }
            template::Seg::Rewrite(a, b) => rewrites.push((a, b)),
            template::Seg::Item { kind, file, owner, name, patch } => {
                let f = repo.file(&file)?;
                if kind == "constfn" {
                    // a constant becomes a function returning its expression, so that it can carry a contract
                    let s = find_item(&f.items, "const", owner.as_str(), &name)?;
                    let (head, expr) = s.split_once('=').ok_or("const without value")?;
                    let ty = head.split_once(':').ok_or("const without type")?.1;
                    let expr = expr.trim().trim_end_matches(';');
                    let mut expr = expr.to_string();
                    for (a, b) in &rewrites { expr = apply_rewrite(&expr, a, b); }
                    let spec = patch.iter().map(|p| p.1.clone()).collect::<String>();
                    let (spec, proof) = spec.split_once("|>").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((spec.clone(), String::new()));
                    push!(format!("pub fn vx_{name}() -> (r: {ty})\n    {spec}\n{{ let vx_r: {ty} = {expr}; proof {{ {proof} }} vx_r }}\n"));
                    continue;
                }
                let s = find_item(&f.items, &kind, &owner, &name)?;
                let s = consts::fold_item_text(&s, &env);
                let s = patch.iter().fold(s, |s, (a, b)| apply_rewrite(&s, a, b));
                push!(format!("{}\n", pretty(&s)));
            }
            template::Seg::Fn(mut fs) => {
                let items = {
                    let f = repo.file(&fs.file)?;
                    match &fs.mac {
                        Some((m, a)) => expand_macro(f, m, a)?,
                        None => f.items.clone(),
                    }
                };
                let (sig, block) = find_fn(&items, &fs.owner, &fs.name)?;
                let line = sig.ident.span().start().line;
                let mut rw = rewrites.clone();
                rw.append(&mut fs.rewrites);
                fs.rewrites = rw;
                let text = desugar::emit(sig, block, &fs, &env)
                    .map_err(|e| format!("{}::{}: {}", fs.owner, fs.name, e))?;
                let start = cur_line;
                push!(format!("{}\n", text));
                if fs.assumed.is_some() {
                    continue;
                }
                map.push(format!(
                    "{}\t{}\t{}\t{}\t{}\t{}",
                    start,
                    cur_line - 1,
                    fs.file,
                    line,
                    fs.owner,
                    fs.name
                ));
            }
        }
    }
    std::fs::write(&args[3], out).map_err(|e| e.to_string())?;
    std::fs::write(&args[4], map.join("\n") + "\n").map_err(|e| e.to_string())?;
    Ok(())
}

/// Token-text rewrite: both sides are compared with whitespace removed.
pub fn apply_rewrite(s: &str, from: &str, to: &str) -> String {
    let f = norm(from);
    let chars: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let fb: Vec<char> = f.chars().collect();
    let isid = |c: char| c.is_alphanumeric() || c == '_';
    while i < chars.len() {
        if chars[i] == fb[0] && !(isid(fb[0]) && i > 0 && isid(chars[i - 1])) {
            let (mut j, mut k) = (i, 0);
            while j < chars.len() && k < fb.len() {
                if chars[j].is_whitespace() {
                    j += 1;
                    continue;
                }
                if chars[j] != fb[k] {
                    break;
                }
                j += 1;
                k += 1;
            }
            if k == fb.len() && !(isid(fb[k - 1]) && j < chars.len() && isid(chars[j])) {
                out.push_str(to);
                i = j;
                continue;
            }
        }
        out.push(chars[i]);
        i += 1;
    }
    out
}
