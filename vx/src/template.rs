//! The template format: verbatim Verus text with `//@` directives that splice code from /repo.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct LoopSpec {
    pub inv: String,
    pub pre: String,
    pub post: String,
    pub start: String,
    pub item: String,
    pub end: String,
}

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub file: String,
    pub owner: String,
    pub name: String,
    pub mac: Option<(String, String)>,
    pub rename: Option<String>,
    pub attrs: String,
    pub ret: String,
    pub spec: String,
    pub header: String,
    pub entry: String,
    pub exit: String,
    pub ret_proof: String,
    pub loops: BTreeMap<usize, LoopSpec>,
    /// (token prefix, occurrence, after?, text)
    pub at: Vec<(String, usize, bool, String)>,
    pub rewrites: Vec<(String, String)>,
    pub sig: Option<String>,
    pub nloops: Option<usize>,
    pub nopub: bool,
    /// boxed slices, by the tokens of their place: range indexing goes through `vx_sm`
    pub boxed: Vec<String>,
    /// the function every `==` and `!=` becomes a call of
    pub vxeq: Option<String>,
    /// only the contract is used; the named template verifies the body
    pub assumed: Option<String>,
}

pub enum Seg {
    Text(String),
    Consts(String),
    /// values of the struct come from the constructor only and never change
    Sealed(String, String, Vec<String>),
    MacroConsts(String, String, String),
    Rewrite(String, String),
    Item { kind: String, file: String, owner: String, name: String, patch: Vec<(String, String)> },
    Fn(FnSpec),
}

fn arrow(s: &str) -> Result<(String, String), String> {
    let (a, b) = s.split_once("==>>").ok_or(format!("rewrite needs ==>>: {s}"))?;
    Ok((a.trim().to_string(), b.trim().to_string()))
}

pub fn parse(path: &str) -> Result<Vec<Seg>, String> {
    let mut out = vec![];
    let mut assumed = None;
    parse_into(path, &mut out, &mut assumed)?;
    Ok(out)
}

fn parse_into(path: &str, out: &mut Vec<Seg>, assumed: &mut Option<String>) -> Result<(), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let mut cur: Option<FnSpec> = None;
    // where plain lines go while inside a fn block
    let mut slot: Option<(String, usize)> = None;
    let mut buf = String::new();
    for line in text.lines() {
        let t = line.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            let w: Vec<&str> = rest.split_whitespace().collect();
            match (cmd, &mut cur) {
                ("include", None) => {
                    out.push(Seg::Text(std::mem::take(&mut buf)));
                    let dir = std::path::Path::new(path).parent().unwrap();
                    parse_into(dir.join(rest).to_str().unwrap(), out, assumed)?;
                }
                ("consts", None) => {
                    out.push(Seg::Text(std::mem::take(&mut buf)));
                    out.push(Seg::Consts(rest.to_string()));
                }
                ("macroconsts", None) => {
                    out.push(Seg::Text(std::mem::take(&mut buf)));
                    out.push(Seg::MacroConsts(w[0].into(), w[1].into(), w[2].into()));
                }
                ("sealed", None) => {
                    // sealed <struct> <constructor> <file> [macro=m:arg]...
                    out.push(Seg::Text(std::mem::take(&mut buf)));
                    out.push(Seg::Sealed(w[0].into(), w[1].into(), w[2..].iter().map(|x| x.to_string()).collect()));
                }
                ("assume", None) => *assumed = if rest == "off" { None } else { Some(rest.to_string()) },
                ("rewrite", None) => {
                    let (a, b) = arrow(rest)?;
                    out.push(Seg::Rewrite(a, b));
                }
                ("const" | "struct" | "enum" | "type" | "constfn", None) => {
                    out.push(Seg::Text(std::mem::take(&mut buf)));
                    // const file [owner] name [:: patch]
                    let (head, patch) = match rest.split_once(" :: ") {
                        Some((h, p)) if cmd == "constfn" => (h, vec![(String::new(), p.to_string())]),
                        Some((h, p)) => (h, p.split(" ;; ").map(arrow).collect::<Result<_, _>>()?),
                        None => (rest, vec![]),
                    };
                    let w: Vec<&str> = head.split_whitespace().collect();
                    let (o, n) = if w.len() > 2 { (w[1..w.len() - 1].join(" "), w[w.len() - 1]) } else { (String::new(), w[1]) };
                    out.push(Seg::Item {
                        kind: cmd.to_string(),
                        file: w[0].to_string(),
                        owner: o,
                        name: n.to_string(),
                        patch,
                    });
                }
                ("fn", None) => {
                    // fn <file> <name> | fn <file> <owner> :: <name>  [macro=m:arg] [as=name]
                    out.push(Seg::Text(std::mem::take(&mut buf)));
                    let mut f = FnSpec { ret: "r".into(), assumed: assumed.clone(), ..Default::default() };
                    let mut words = vec![];
                    for x in &w {
                        if *x == "nopub" {
                            f.nopub = true;
                        } else if let Some(m) = x.strip_prefix("macro=") {
                            let (a, b) = m.split_once(':').unwrap();
                            f.mac = Some((a.into(), b.into()));
                        } else if let Some(m) = x.strip_prefix("as=") {
                            f.rename = Some(m.into());
                        } else {
                            words.push(*x);
                        }
                    }
                    f.file = words[0].into();
                    let s = words[1..].join(" ");
                    match s.split_once(" :: ") {
                        Some((o, n)) => {
                            f.owner = o.trim().into();
                            f.name = n.trim().into();
                        }
                        None => f.name = s,
                    }
                    cur = Some(f);
                    slot = None;
                }
                ("vxeq", Some(f)) => f.vxeq = Some(if rest.is_empty() { "vx_eq" } else { rest }.into()),
                ("ret", Some(f)) => f.ret = rest.into(),
                ("boxed", Some(f)) => f.boxed.push(rest.into()),
                ("sig", Some(f)) => f.sig = Some(rest.into()),
                ("attr", Some(f)) => {
                    f.attrs.push_str(rest);
                    f.attrs.push('\n');
                }
                ("loops", Some(f)) => f.nloops = Some(rest.parse().map_err(|_| "loops")?),
                ("rewrite", Some(f)) => f.rewrites.push(arrow(rest)?),
                ("spec" | "header" | "entry" | "exit" | "return", Some(_)) => slot = Some((cmd.into(), 0)),
                ("loop" | "pre-loop" | "post-loop" | "body-start" | "body-item" | "body-end", Some(f)) => {
                    let k = rest.parse().map_err(|_| format!("bad loop number {rest}"))?;
                    f.loops.entry(k).or_default();
                    slot = Some((cmd.into(), k));
                }
                ("before" | "after", Some(f)) => {
                    // after [n] <token prefix>
                    let (n, pat) = match w[0].parse::<usize>() {
                        Ok(n) => (n, w[1..].join(" ")),
                        Err(_) => (0, rest.to_string()),
                    };
                    f.at.push((pat, n, cmd == "after", String::new()));
                    slot = Some(("at".into(), f.at.len() - 1));
                }
                ("end", Some(_)) => {
                    out.push(Seg::Fn(cur.take().unwrap()));
                    slot = None;
                }
                _ => return Err(format!("{path}: bad directive: {t}")),
            }
            continue;
        }
        match (&mut cur, &slot) {
            (None, _) => {
                // a lemma of an assumed part is proved in the template that owns it
                if let (Some(by), true) = (&assumed, line.starts_with("pub proof fn ") || line.starts_with("proof fn ")) {
                    // (not the termination argument of a specification: that is checked again)
                    if !buf.ends_with("#[via_fn]\n") {
                    buf.push_str(&format!("#[verifier::external_body] /* verified in template {by} */ "));
                    }
                }
                buf.push_str(line);
                buf.push('\n');
            }
            (Some(f), Some((s, k))) => {
                let dst = match s.as_str() {
                    "spec" => &mut f.spec,
                    "header" => &mut f.header,
                    "entry" => &mut f.entry,
                    "exit" => &mut f.exit,
                    "return" => &mut f.ret_proof,
                    "loop" => &mut f.loops.get_mut(k).unwrap().inv,
                    "pre-loop" => &mut f.loops.get_mut(k).unwrap().pre,
                    "post-loop" => &mut f.loops.get_mut(k).unwrap().post,
                    "body-start" => &mut f.loops.get_mut(k).unwrap().start,
                    "body-item" => &mut f.loops.get_mut(k).unwrap().item,
                    "body-end" => &mut f.loops.get_mut(k).unwrap().end,
                    "at" => &mut f.at[*k].3,
                    _ => unreachable!(),
                };
                dst.push_str(line);
                dst.push('\n');
            }
            (Some(_), None) if t.is_empty() => {}
            (Some(_), None) => return Err(format!("{path}: text outside a slot: {t}")),
        }
    }
    if cur.is_some() {
        return Err(format!("{path}: missing //@end"));
    }
    out.push(Seg::Text(buf));
    Ok(())
}
