//! vxtract: mechanical extraction of functions of /repo into one Verus file.
//!
//!   vxtract REPO UNIT.vx OUT.rs [--cover] 
//!
//! UNIT.vx is Verus text with `//@@` directives.  Everything that is executable code in OUT.rs comes
//! from REPO's current working tree; UNIT.vx only supplies ghost text (contracts, loop invariants,
//! lemmas, proof blocks) which is spliced in at loop ordinals / function begin / end.
//! What the rewriting does to the executable code is listed in DESIGN.md, section "Extraction".
//! Exit status: 0 ok, 3 lost anchor (function/loop/statement named by the unit no longer exists).

mod rewrite;

use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

pub fn lost(msg: String) -> ! {
    println!("LOST-ANCHOR: {}", msg);
    std::process::exit(3);
}

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub impl_filter: Option<String>,
    pub ret: Option<String>,
    pub rename: Option<String>,
    pub attrs: String,
    pub spec: String,
    pub begin: String,
    pub end: String,
    pub end_tail: bool,
    pub loops: BTreeMap<usize, BTreeMap<String, String>>,
    pub stmts: Vec<(String, String, String)>, // prefix, before|after, text
    pub subst: Vec<(String, String)>,
    pub iterkind: HashMap<String, String>,
    pub external: bool,
    pub free: bool,
    pub nocover: bool,
    pub opaque_ret: bool,
    pub generics: Option<String>,
}

enum Piece {
    Text(String),
    Fn(Box<FnSpec>),
    Item { file: String, name: String, subst: Vec<(String, String)> },
    Const { file: String, path: String },
    /// an associated type the unit's substitutions resolve: the source must still say the same
    Attr { file: String, item: String, name: String, want: String },
    Assoc { file: String, ty: String, tr: String, name: String, want: String },
}

fn words(s: &str) -> Vec<String> {
    // split on whitespace, honouring "..." quoting; key="..." stays together
    let mut out = vec![];
    let mut cur = String::new();
    let mut q = false;
    for c in s.chars() {
        if c == '"' { q = !q; cur.push(c); continue; }
        if c.is_whitespace() && !q { if !cur.is_empty() { out.push(std::mem::take(&mut cur)); } continue; }
        cur.push(c);
    }
    if !cur.is_empty() { out.push(cur); }
    out
}
fn unq(s: &str) -> String { s.trim_matches('"').to_string() }

fn read_with_includes(path: &str) -> String {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("read {}: {}", path, e));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut out = String::new();
    for line in text.lines() {
        if let Some(rest) = line.trim().strip_prefix("//@@ include ") {
            out.push_str(&read_with_includes(dir.join(rest.trim()).to_str().unwrap()));
        } else {
            out.push_str(line);
            out.push('\n');
        }
    }
    out
}

fn parse_unit(path: &str) -> (Vec<Piece>, Vec<(String, String)>) {
    let text = read_with_includes(path);
    let mut pieces = vec![];
    let mut gsubst = vec![];
    let mut cur = String::new();
    let mut f: Option<FnSpec> = None;
    // where following raw lines go when in a fn
    let mut slot: (String, usize, String) = ("spec".into(), 0, String::new());
    for line in text.lines() {
        let t = line.trim();
        if let Some(rest) = t.strip_prefix("//@@") {
            let w = words(rest);
            if w.is_empty() { continue; }
            match w[0].as_str() {
                "fn" | "extfn" => {
                    if f.is_some() { panic!("nested fn directive at {}", line); }
                    if !cur.is_empty() { pieces.push(Piece::Text(std::mem::take(&mut cur))); }
                    let mut s = FnSpec { file: w[1].clone(), path: w[2].clone(), external: w[0] == "extfn", ..Default::default() };
                    for o in &w[3..] {
                        if let Some(v) = o.strip_prefix("ret=") { s.ret = Some(v.into()); }
                        else if let Some(v) = o.strip_prefix("impl=") { s.impl_filter = Some(unq(v)); }
                        else if let Some(v) = o.strip_prefix("rename=") { s.rename = Some(v.into()); }
                        else if let Some(v) = o.strip_prefix("attr=") { s.attrs.push_str(&unq(v)); s.attrs.push('\n'); }
                        else if let Some(v) = o.strip_prefix("generics=") { s.generics = Some(unq(v)); }
                        else if o == "free" { s.free = true; }
                        else if o == "nocover" { s.nocover = true; }
                        else { panic!("bad fn option {}", o); }
                    }
                    f = Some(s);
                    slot = ("spec".into(), 0, String::new());
                }
                "endfn" => {
                    pieces.push(Piece::Fn(Box::new(f.take().expect("endfn without fn"))));
                }
                "begin" => slot = ("begin".into(), 0, String::new()),
                "end" => { slot = ("end".into(), 0, String::new()); if w.len() > 1 && w[1] == "tail" { f.as_mut().unwrap().end_tail = true; } }
                "loop" => {
                    let n: usize = w[1].parse().unwrap();
                    let kind = w.get(2).cloned().unwrap_or("inv".into());
                    f.as_mut().unwrap().loops.entry(n).or_default().entry(kind.clone()).or_default();
                    slot = ("loop".into(), n, kind);
                }
                "stmt" => {
                    let pfx = unq(&w[1]);
                    let pos = format!("{}{}", w[2], w.get(3).cloned().unwrap_or_default()); // optional: which occurrence
                    let ff = f.as_mut().unwrap();
                    ff.stmts.push((pfx, pos, String::new()));
                    slot = ("stmt".into(), ff.stmts.len() - 1, String::new());
                }
                "subst" => {
                    assert!(w[2] == "=>", "subst syntax: {}", line);
                    let e = (unq(&w[1]), unq(&w[3]));
                    if let Some(ff) = f.as_mut() { ff.subst.push(e) } else { gsubst.push(e) }
                }
                "assoc" => {
                    if !cur.is_empty() { pieces.push(Piece::Text(std::mem::take(&mut cur))); }
                    pieces.push(Piece::Assoc { file: w[1].clone(), ty: w[2].clone(), tr: w[3].clone(), name: w[4].clone(), want: unq(&w[6]) });
                }
                "opcalls" => { f.as_mut().unwrap().iterkind.insert("opcalls".into(), "1".into()); }
                "iterkind" => {
                    for o in &w[1..] {
                        let (a, b) = o.split_once('=').unwrap();
                        f.as_mut().unwrap().iterkind.insert(a.into(), b.into());
                    }
                }
                "item" => {
                    if !cur.is_empty() { pieces.push(Piece::Text(std::mem::take(&mut cur))); }
                    let mut subst = vec![];
                    let mut i = 3;
                    while i + 2 < w.len() { subst.push((unq(&w[i]), unq(&w[i + 2]))); i += 3; }
                    pieces.push(Piece::Item { file: w[1].clone(), name: w[2].clone(), subst });
                }
                "attr" => {
                    if !cur.is_empty() { pieces.push(Piece::Text(std::mem::take(&mut cur))); }
                    pieces.push(Piece::Attr { file: w[1].clone(), item: w[2].clone(), name: w[3].clone(), want: unq(&w[5]) });
                }
                "const" => {
                    if !cur.is_empty() { pieces.push(Piece::Text(std::mem::take(&mut cur))); }
                    pieces.push(Piece::Const { file: w[1].clone(), path: w[2].clone() });
                }
                "ring" => cur.push_str(&ring_lemma(rest.trim().strip_prefix("ring").unwrap().trim())),
                "note" => {}
                other => panic!("unknown directive {}", other),
            }
            continue;
        }
        if let Some(ff) = f.as_mut() {
            let dst: &mut String = match slot.0.as_str() {
                "spec" => &mut ff.spec,
                "begin" => &mut ff.begin,
                "end" => &mut ff.end,
                "loop" => ff.loops.get_mut(&slot.1).unwrap().get_mut(&slot.2).unwrap(),
                "stmt" => &mut ff.stmts[slot.1].2,
                _ => unreachable!(),
            };
            dst.push_str(line);
            dst.push('\n');
        } else {
            cur.push_str(line);
            cur.push('\n');
        }
    }
    assert!(f.is_none(), "unterminated fn directive");
    if !cur.is_empty() { pieces.push(Piece::Text(cur)); }
    (pieces, gsubst)
}

pub fn norm(s: &str) -> String {
    // normalise to proc_macro2 token spacing
    match s.parse::<TokenStream>() {
        Ok(t) => t.to_string(),
        Err(_) => s.to_string(),
    }
}

pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub impl_generics: Option<syn::Generics>,
    pub self_ty: Option<String>,
    pub line: usize,
    pub trait_: Option<String>,
}

fn self_base(ty: &syn::Type) -> String {
    if let syn::Type::Path(p) = ty { p.path.segments.last().unwrap().ident.to_string() } else if let syn::Type::TraitObject(t) = ty { t.bounds.to_token_stream().to_string() } else { ty.to_token_stream().to_string() }
}

/// path: `name`, `Type::name`, `name::nested`, `Type::name::nested`
fn find_fn(file: &syn::File, path: &str, impl_filter: &Option<String>) -> Option<Found> {
    let segs: Vec<&str> = path.split("::").collect();
    fn is_cfg_out(attrs: &[syn::Attribute]) -> bool {
        attrs.iter().any(|a| {
            let s = a.to_token_stream().to_string();
            s.contains("cfg (feature = \"nightly\")") || s.contains("cfg (test)") || s == "# [test]"
        })
    }
    fn nested(found: Found, rest: &[&str]) -> Option<Found> {
        if rest.is_empty() { return Some(found); }
        for st in &found.block.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(f)) = st {
                if f.sig.ident == rest[0] {
                    let nf = Found { sig: f.sig.clone(), block: (*f.block).clone(), impl_generics: None, self_ty: None, line: f.sig.ident.span().start().line, trait_: None };
                    return nested(nf, &rest[1..]);
                }
            }
        }
        None
    }
    fn items(its: &[syn::Item], segs: &[&str], filt: &Option<String>) -> Option<Found> {
        for it in its {
            match it {
                syn::Item::Fn(f) if f.sig.ident == segs[0] && !is_cfg_out(&f.attrs) => {
                    let nf = Found { sig: f.sig.clone(), block: (*f.block).clone(), impl_generics: None, self_ty: None, line: f.sig.ident.span().start().line, trait_: None };
                    if let Some(r) = nested(nf, &segs[1..]) { return Some(r); }
                }
                syn::Item::Impl(im) if segs.len() >= 2 && self_base(&im.self_ty) == segs[0] && !is_cfg_out(&im.attrs) => {
                    let head = format!("{} {}", im.trait_.as_ref().map(|t| t.1.to_token_stream().to_string() + " for").unwrap_or_default(), im.self_ty.to_token_stream());
                    if let Some(f) = filt { if !head.contains(&norm(f)) { continue; } }
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(m) = ii {
                            if m.sig.ident == segs[1] {
                                let nf = Found {
                                    sig: m.sig.clone(), block: m.block.clone(), impl_generics: Some(im.generics.clone()),
                                    self_ty: Some(im.self_ty.to_token_stream().to_string()), line: m.sig.ident.span().start().line,
                                    trait_: im.trait_.as_ref().map(|t| t.1.to_token_stream().to_string()),
                                };
                                if let Some(r) = nested(nf, &segs[2..]) { return Some(r); }
                            }
                        }
                    }
                }
                syn::Item::Mod(m) if !is_cfg_out(&m.attrs) => {
                    if let Some((_, its2)) = &m.content { if let Some(r) = items(its2, segs, filt) { return Some(r); } }
                }
                syn::Item::Macro(m) if m.mac.path.is_ident("cfg_if") => {
                    // cfg_if! { if #[cfg(feature = "nightly")] { .. } else { .. } } : the default build takes the else branch
                    let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    if let Some(proc_macro2::TokenTree::Group(g)) = toks.last() {
                        if let Ok(f) = syn::parse2::<syn::File>(g.stream()) { if let Some(r) = items(&f.items, segs, filt) { return Some(r); } }
                    }
                }
                _ => {}
            }
        }
        None
    }
    items(&file.items, &segs, impl_filter)
}

/// `NAME vars.. : LHS == RHS` becomes a lemma over any field, proved by normalisation (units/ring.vx)
fn ring_lemma(s: &str) -> String {
    let (head, eq) = s.split_once(':').expect("ring syntax");
    let hw: Vec<&str> = head.split_whitespace().collect();
    let (name, vars) = (hw[0], &hw[1..]);
    let (l, r) = eq.split_once("==").expect("ring syntax");
    fn tr(e: &syn::Expr, vars: &[&str]) -> (String, String, String, usize) {   // field text, E text, E text over locals, depth
        match e {
            syn::Expr::Paren(p) => tr(&p.expr, vars),
            syn::Expr::Path(p) => { let n = p.path.get_ident().unwrap().to_string(); let i = vars.iter().position(|v| *v == n).unwrap_or_else(|| panic!("ring: unknown variable {}", n)); (n, format!("ev({})", i), String::new(), 1) }
            syn::Expr::Lit(l) => match l.to_token_stream().to_string().as_str() {
                "0" => ("F::f0()".into(), "E::Zero".into(), String::new(), 1), "1" => ("F::f1()".into(), "E::One".into(), String::new(), 1),
                "2" => ("F::f1().fadd(F::f1())".into(), "ea(E::One, E::One)".into(), String::new(), 2), x => panic!("ring: literal {}", x) },
            syn::Expr::Unary(u) => { let (a, b, _, d) = tr(&u.expr, vars); (format!("{}.fneg()", a), format!("en({})", b), String::new(), d + 1) }
            syn::Expr::Binary(b) => {
                let (la, lb, _, ld) = tr(&b.left, vars); let (ra, rb, _, rd) = tr(&b.right, vars);
                let d = ld.max(rd);
                match b.op {
                    syn::BinOp::Add(_) => (format!("{}.fadd({})", la, ra), format!("ea({}, {})", lb, rb), String::new(), d + 1),
                    syn::BinOp::Sub(_) => (format!("{}.fadd({}.fneg())", la, ra), format!("es({}, {})", lb, rb), String::new(), d + 2),
                    syn::BinOp::Mul(_) => (format!("{}.fmul({})", la, ra), format!("em({}, {})", lb, rb), String::new(), d + 1),
                    _ => panic!("ring: operator"),
                }
            }
            _ => panic!("ring: expression {}", e.to_token_stream()),
        }
    }
    let (la, lb, _, ld) = tr(&syn::parse_str::<syn::Expr>(l).expect("ring lhs"), vars);
    let (ra, rb, _, rd) = tr(&syn::parse_str::<syn::Expr>(r).expect("ring rhs"), vars);
    format!("pub proof fn {}<F: FieldSpec>({}) ensures {} == {} {{\n    assert(nrm({}) == nrm({})) by (compute_only);\n    l_ring({}, {}, seq![{}]); reveal_with_fuel(eval, {});\n}}\n",
        name, vars.iter().map(|v| format!("{}: F", v)).collect::<Vec<_>>().join(", "), la, ra, lb, rb, lb, rb, vars.join(", "), ld.max(rd) + 2)
}

fn pretty(s: &str) -> String {
    // tokens -> lines
    let mut out = String::new();
    let mut depth: usize = 0;
    let mut paren: i32 = 0;
    let mut instr = false;
    let mut prev = ' ';
    for c in s.chars() {
        if instr {
            out.push(c);
            if c == '"' && prev != '\\' { instr = false; }
            prev = c;
            continue;
        }
        match c {
            '"' => { instr = true; out.push(c); }
            '(' | '[' => { paren += 1; out.push(c); }
            ')' | ']' => { paren -= 1; out.push(c); }
            '{' => { depth += 1; out.push(c); out.push('\n'); out.push_str(&"    ".repeat(depth)); }
            '}' => { depth = depth.saturating_sub(1); out.push('\n'); out.push_str(&"    ".repeat(depth)); out.push(c); out.push('\n'); out.push_str(&"    ".repeat(depth)); }
            ';' if paren <= 0 || depth > 0 => { out.push(c); out.push('\n'); out.push_str(&"    ".repeat(depth)); }
            _ => out.push(c),
        }
        prev = c;
    }
    out
}

/// replaces every occurrence of the token text `pat` in `s`, whitespace ignored
fn replace_tokens(s: &str, pat: &str, to: &str) -> String {
    let p: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    if p.is_empty() { return s.to_string(); }
    let c: Vec<char> = s.chars().collect();
    let id = |x: char| x.is_alphanumeric() || x == '_';
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        let mut hit = None;
        if c[i] == p[0] && !(id(p[0]) && i > 0 && id(c[i - 1])) {
            let (mut k, mut q) = (i, 0);
            while k < c.len() && q < p.len() {
                if c[k] == p[q] { k += 1; q += 1; } else if c[k].is_whitespace() { k += 1; } else { break; }
            }
            if q == p.len() && !(id(p[q - 1]) && k < c.len() && id(c[k])) { hit = Some(k); }
        }
        match hit { Some(k) => { out.push_str(to); i = k; } None => { out.push(c[i]); i += 1; } }
    }
    out
}
fn subst_all(mut s: String, subs: &[(String, String)]) -> String {
    for (a, b) in subs { s = replace_tokens(&s, a, b); }
    s
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = &args[1];
    let (pieces, gsubst) = parse_unit(&args[2]);
    let cover = args.iter().any(|a| a == "--cover");
    let mut files: HashMap<String, syn::File> = HashMap::new();
    let mut out = String::new();
    let mut report: Vec<String> = vec![];
    let mut load = |f: &str| -> syn::File {
        if let Some(x) = files.get(f) { return x.clone(); }
        let p = format!("{}/{}", repo, f);
        let t = std::fs::read_to_string(&p).unwrap_or_else(|_| lost(format!("file {} is gone", f)));
        // syn no longer reads bare trait objects here; `dyn` is what they mean in the 2018 edition
        let t = t.replace("Box<FnOnce(", "Box<dyn FnOnce(").replace("Box<Fn(", "Box<dyn Fn(");
        let parsed = syn::parse_file(&t).unwrap_or_else(|e| lost(format!("cannot parse {}:{}: {}", f, e.span().start().line, e)));
        files.insert(f.into(), parsed.clone());
        parsed
    };
    for p in &pieces {
        match p {
            Piece::Text(t) => out.push_str(t),
            Piece::Item { file, name, subst } => {
                let fl = load(file);
                out.push_str(&emit_item(&fl, file, name, &gsubst, subst));
            }
            Piece::Const { file, path } => {
                let fl = load(file);
                out.push_str(&emit_const(&fl, file, path, &gsubst));
            }
            Piece::Assoc { file, ty, tr, name, want } => {
                let fl = load(file);
                let mut got = None;
                for it in &fl.items {
                    if let syn::Item::Impl(im) = it {
                        let t = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                        let t = if t.is_empty() { "-".to_string() } else { t };
                        if &t != tr || &self_base(&im.self_ty) != ty { continue; }
                        for ii in &im.items {
                            match ii {
                                syn::ImplItem::Type(x) if x.ident == name.as_str() => got = Some(x.ty.to_token_stream().to_string()),
                                syn::ImplItem::Const(x) if x.ident == name.as_str() => got = Some(x.expr.to_token_stream().to_string()),
                                _ => {}
                            }
                        }
                    }
                }
                let strip = |s: &str| s.replace(char::is_whitespace, "");
                if got.as_deref().map(strip) != Some(strip(want)) { lost(format!("{}: associated {} of {} for {} is {:?}, the unit assumes {}", file, name, tr, ty, got, want)); }
            }
            Piece::Attr { file, item, name, want } => {
                let fl = load(file);
                let mut got = None;
                for it in &fl.items {
                    if let syn::Item::Struct(st) = it {
                        if st.ident != item.as_str() { continue; }
                        for a in &st.attrs { if let syn::Meta::NameValue(nv) = &a.meta { if nv.path.is_ident(name.as_str()) { got = Some(nv.value.to_token_stream().to_string().trim_matches('"').to_string()); } } }
                    }
                }
                if got.as_deref() != Some(want.as_str()) { lost(format!("{}: attribute {} of {} is {:?}, the unit assumes {}", file, name, item, got, want)); }
            }
            Piece::Fn(spec) => {
                let fl = load(&spec.file);
                let found = find_fn(&fl, &spec.path, &spec.impl_filter)
                    .unwrap_or_else(|| lost(format!("function {} not found in {}", spec.path, spec.file)));
                emit_fn(&mut out, spec, found, &gsubst, cover, &mut report);
            }
        }
    }
    std::fs::write(&args[3], out).unwrap();
    for r in report { println!("{}", r); }
}

fn emit_item(fl: &syn::File, file: &str, name: &str, gsubst: &[(String, String)], subst: &[(String, String)]) -> String {
    for it in &fl.items {
        match it {
            syn::Item::Struct(s) if s.ident == name => {
                let mut s = s.clone();
                let copy = s.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Copy"));
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = syn::parse_quote!(pub); }
                let mut t = subst_all(s.to_token_stream().to_string(), gsubst);
                t = subst_all(t, subst);
                return format!("// extracted: struct {} from {}\n{}{}\n", name, file, if copy { "#[derive(Clone, Copy)]\n" } else { "" }, pretty(&t));
            }
            syn::Item::Enum(e) if e.ident == name => {
                let mut e = e.clone();
                let copy = e.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Copy"));
                e.attrs.clear();
                e.vis = syn::parse_quote!(pub);
                for v in e.variants.iter_mut() { v.attrs.clear(); }
                if e.variants.is_empty() {
                    // Verus has no empty enums: a marker type
                    return format!("// extracted: marker enum {} from {}\n#[derive(Clone, Copy)]\npub struct {};\n", name, file, name);
                }
                let mut t = subst_all(e.to_token_stream().to_string(), gsubst);
                t = subst_all(t, subst);
                return format!("// extracted: enum {} from {}\n{}{}\n", name, file, if copy { "#[derive(Clone, Copy)]\n" } else { "" }, pretty(&t));
            }
            syn::Item::Trait(t0) if t0.ident == name => {
                let t = subst_all(t0.to_token_stream().to_string(), gsubst);
                let t = subst_all(t, subst);
                return format!("// extracted: trait {} from {}\n{}\n", name, file, pretty(&t));
            }
            syn::Item::Type(t0) if t0.ident == name => {
                let t = subst_all(t0.to_token_stream().to_string(), gsubst);
                let t = subst_all(t, subst);
                return format!("// extracted: type {} from {}\n{}\n", name, file, pretty(&t));
            }
            _ => {}
        }
    }
    lost(format!("item {} not found in {}", name, file))
}

fn emit_const(fl: &syn::File, file: &str, path: &str, gsubst: &[(String, String)]) -> String {
    let segs: Vec<&str> = path.split("::").collect();
    for it in &fl.items {
        match it {
            syn::Item::Const(c) if segs.len() == 1 && c.ident == segs[0] => {
                let mut c = c.clone(); c.attrs.clear(); c.vis = syn::parse_quote!(pub);
                return format!("// extracted: const {} from {}\n{}\n", path, file, subst_all(c.to_token_stream().to_string(), gsubst));
            }
            syn::Item::Impl(im) if segs.len() == 2 && self_base(&im.self_ty) == segs[0] => {
                for ii in &im.items {
                    if let syn::ImplItem::Const(c) = ii {
                        if c.ident == segs[1] {
                            let mut c = c.clone(); c.attrs.clear(); c.vis = syn::parse_quote!(pub);
                            let g = &im.generics;
                            let (ig, _, wc) = g.split_for_impl();
                            let st = im.self_ty.to_token_stream();
                            let t = quote::quote!(impl #ig #st #wc { #c }).to_string();
                            return format!("// extracted: const {} from {}\n{}\n", path, file, subst_all(t, gsubst));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    lost(format!("const {} not found in {}", path, file))
}

fn emit_fn(out: &mut String, spec: &FnSpec, found: Found, gsubst: &[(String, String)], cover: bool, report: &mut Vec<String>) {
    let Found { mut sig, mut block, impl_generics, self_ty, line, trait_ } = found;
    let nested: Vec<String> = block.stmts.iter().filter_map(|s| if let syn::Stmt::Item(syn::Item::Fn(f)) = s { Some(f.sig.ident.to_string()) } else { None }).collect();
    block.stmts.retain(|s| !matches!(s, syn::Stmt::Item(_)));
    let has_loops;
    let mut table: Vec<String> = vec![];
    let label = spec.path.clone();
    if spec.external {
        block = syn::parse_quote!({ unimplemented!() });
        has_loops = 0;
    } else {
        let dump = std::env::var("VX_DUMP").is_ok();   // development aid: show the rewritten loops
        let mut sp2;
        let spec = if dump { sp2 = spec.clone(); for i in 1..40 { let e = sp2.loops.entry(i).or_default(); e.entry("inv".into()).or_default().push_str(&format!("invariant /*LOOP {}*/ true,", i)); } &sp2 } else { spec };
        let mut rw = rewrite::Rewriter::new(spec, cover);
        rw.block_fn(&mut block);
        has_loops = rw.n_loops;
        for n in spec.loops.keys() {
            if *n == 0 || (*n > rw.n_loops && !dump) { lost(format!("{} ({}): loop {} no longer exists", label, spec.file, n)); }
        }
        for n in 1..=rw.n_loops {
            if !spec.loops.contains_key(&n) { lost(format!("{} ({}): loop {} is new (no invariant in the unit)", label, spec.file, n)); }
        }
        for (i, (p, _, _)) in spec.stmts.iter().enumerate() {
            if !rw.stmt_hit[i] { lost(format!("{} ({}): statement anchor `{}` no longer exists", label, spec.file, p)); }
        }
        table = rw.table;
    }
    // signature
    if let Some(n) = &spec.rename { sig.ident = syn::Ident::new(n, proc_macro2::Span::call_site()); }
    for a in sig.inputs.iter_mut() {
        match a { syn::FnArg::Receiver(r) => r.attrs.clear(), syn::FnArg::Typed(t) => t.attrs.clear() }
    }
    let base = spec.path.split("::").last().unwrap().to_string();
    if spec.path.split("::").count() >= 2 && self_ty.is_none() && spec.rename.is_none() {
        // nested fn hoisted
        let hoisted = spec.path.replace("::", "__");
        sig.ident = syn::Ident::new(&hoisted, proc_macro2::Span::call_site());
    }
    let out_ty = match &sig.output { syn::ReturnType::Default => None, syn::ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()) };
    let mut sig2 = sig.clone();
    sig2.output = syn::ReturnType::Default;
    let where_ = sig2.generics.where_clause.take();
    let mut head = sig2.to_token_stream().to_string();
    if let Some(t) = out_ty {
        match &spec.ret { Some(r) => { let _ = write!(head, " -> ({}: {})", r, t); } None => { let _ = write!(head, " -> {}", t); } }
    }
    if let Some(w) = where_ { let _ = write!(head, " {}", w.to_token_stream()); }
    // `mut self` by value: rebind, Verus has no `mut self` receiver
    let mut mut_self = false;
    for a in sig2.inputs.iter_mut() {
        if let syn::FnArg::Receiver(r) = a { if r.reference.is_none() && r.mutability.is_some() { mut_self = true; } }
    }
    let mut body = if mut_self {
        head = head.replacen("mut self", "self", 1);
        let t = rename_tokens(block.to_token_stream(), "self", "vx_self").to_string();
        t.replacen('{', "{ let mut vx_self = self ;", 1)
    } else { block.to_token_stream().to_string() };
    // hoisted nested functions
    for n in &nested {
        let hoisted = format!("{}__{}", spec.path.split("::").last().unwrap(), n);
        body = replace_ident_call(&body, n, &hoisted);
    }
    let mut subs: Vec<(String, String)> = spec.subst.clone();
    subs.extend(gsubst.iter().cloned());
    head = subst_all(head, &subs);
    body = subst_all(body, &subs);
    body = pretty(&body);
    for (i, t) in table.iter().enumerate() {
        let inv = format!("vx_inv ! ({}) ;", i);
        if let Some(pos) = body.find(&inv) {
            // move the invariant text in front of the block's opening brace
            let brace = body[..pos].rfind('{').unwrap();
            let tail = body[pos + inv.len()..].to_string();
            let headp = body[..brace].to_string();
            body = format!("{}\n{}\n{{{}", headp, t, tail);
            continue;
        }
        let ph = format!("vx_ph ! ({}) ;", i);
        if body.contains(&ph) { body = body.replacen(&ph, &format!("\n{}\n", t), 1); }
        else { panic!("placeholder {} lost", i); }
    }
    let (b, e) = if let (Some(st), false) = (&self_ty, spec.free) {
        let g = impl_generics.unwrap();
        let (ig, _, wc) = g.split_for_impl();
        let ig = spec.generics.clone().unwrap_or(ig.to_token_stream().to_string());
        (subst_all(format!("impl {} {} {} {{\n", ig, st.trim_start_matches("dyn "), wc.to_token_stream()), &subs), "\n}\n")
    } else { (String::new(), "\n") };
    let lname = format!("{}{}", spec.path, spec.impl_filter.as_ref().map(|s| format!("[{}]", s)).unwrap_or_default());
    let _ = write!(out, "// VXFN {} {}:{}{}\n{}", lname, spec.file, line, if spec.external { " EXTERNAL" } else { "" }, b);
    if spec.external { out.push_str("#[verifier::external_body]\n"); }
    out.push_str(&spec.attrs);
    let _ = write!(out, "pub {}\n{}\n{}\n{}// VXEND\n", head, spec.spec, body, e);
    let _ = base;
    report.push(format!("EXTRACTED {} {}:{} loops={} trait={} {}", lname, spec.file, line, has_loops, trait_.is_some(), if spec.external { "EXTERNAL" } else { "" }));
}

fn rename_tokens(ts: proc_macro2::TokenStream, from: &str, to: &str) -> proc_macro2::TokenStream {
    ts.into_iter().map(|t| match t {
        proc_macro2::TokenTree::Ident(i) if i == from => proc_macro2::TokenTree::Ident(syn::Ident::new(to, i.span())),
        proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), from, to)); n.set_span(g.span()); proc_macro2::TokenTree::Group(n) }
        o => o,
    }).collect()
}

fn replace_ident_call(body: &str, n: &str, h: &str) -> String {
    let pat = format!("{} (", n);
    let mut out = String::new();
    let mut rest = body;
    while let Some(p) = rest.find(&pat) {
        let before = rest[..p].chars().last().unwrap_or(' ');
        let ok = !(before.is_alphanumeric() || before == '_' || before == '.');
        out.push_str(&rest[..p]);
        out.push_str(if ok { h } else { n });
        rest = &rest[p + n.len()..];
    }
    out.push_str(rest);
    out
}
