//! Generic, function-independent rewrites of the extracted bodies into the Verus subset.
use crate::{norm, FnSpec};
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse2, parse_quote, Expr, Ident, Pat, Stmt};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Ref, Mut, Own, Copy }

pub enum It {
    Range { a: Expr, b: Expr, incl: bool },
    StepRange { a: Expr, b: Expr, s: Expr },
    Elem { base: Expr, kind: Kind },
    Chunks { base: Expr, c: Expr, mutable: bool, id: usize, exact: bool },
    Enumerate(Box<It>),
    Zip(Box<It>, Box<It>),
    Chain(Box<It>, Box<It>),
    Skip(Box<It>, Expr),
    Take(Box<It>, Expr),
    Rev(Box<It>),
    Once(Ident, bool),
}

pub struct Rewriter<'a> {
    spec: &'a FnSpec,
    cover: bool,
    pub table: Vec<String>,
    pub n_loops: usize,
    pub stmt_hit: Vec<bool>,
    stmt_done: Vec<bool>,
    stmt_seen: Vec<usize>,
    kinds: HashMap<String, Kind>,
    uid: usize,
}

fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn toks(s: &str) -> TokenStream { s.parse().unwrap() }
fn peel(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Reference(r) => peel(&r.expr),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => peel(&u.expr),
        _ => e.clone(),
    }
}
fn unparen(e: &Expr) -> Expr { if let Expr::Paren(p) = e { unparen(&p.expr) } else { e.clone() } }

impl<'a> Rewriter<'a> {
    pub fn new(spec: &'a FnSpec, cover: bool) -> Self {
        let n = spec.stmts.len();
        let mut kinds = HashMap::new();
        for (k, v) in &spec.iterkind {
            kinds.insert(k.clone(), match v.as_str() { "mut" => Kind::Mut, "own" => Kind::Own, "copy" => Kind::Copy, _ => Kind::Ref });
        }
        Rewriter { spec, cover, table: vec![], n_loops: 0, stmt_hit: vec![false; n], stmt_done: vec![false; n], stmt_seen: vec![0; n], kinds, uid: 0 }
    }

    fn ph(&mut self, text: &str) -> Stmt {
        let i = self.table.len();
        self.table.push(text.to_string());
        let lit = proc_macro2::Literal::usize_unsuffixed(i);
        parse_quote!(vx_ph!(#lit);)
    }
    fn inv(&mut self, text: &str) -> Stmt {
        let i = self.table.len();
        self.table.push(text.to_string());
        let lit = proc_macro2::Literal::usize_unsuffixed(i);
        parse_quote!(vx_inv!(#lit);)
    }

    pub fn block_fn(&mut self, b: &mut syn::Block) {
        self.block(b);
        let mut stmts = vec![];
        if self.cover && !self.spec.nocover {
            stmts.push({ let n = self.table.len(); self.ph(&format!("proof {{ assert(vx_cov({})); }} // COVER", n)) });
        }
        if !self.spec.begin.is_empty() { let t = self.spec.begin.clone(); stmts.push(self.ph(&t)); }
        let mut old = std::mem::take(&mut b.stmts);
        if !self.spec.end.is_empty() {
            let t = self.spec.end.clone();
            // before the tail expression when there is one (bound to vx_ret if `end tail`)
            if let Some(Stmt::Expr(e, None)) = old.last().cloned() {
                let unit_tail = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) || matches!(&e, Expr::Block(_)) && !self.spec.end_tail;
                if unit_tail { 
                    let p = self.ph(&t);
                    old.pop();
                    old.push(Stmt::Expr(e, Some(Default::default())));
                    old.push(p);
                } else {
                    old.pop();
                    if self.spec.end_tail {
                        old.push(parse_quote!(let vx_ret = #e;));
                        let p = self.ph(&t);
                        old.push(p);
                        old.push(Stmt::Expr(parse_quote!(vx_ret), None));
                    } else {
                        let p = self.ph(&t);
                        old.push(p);
                        old.push(Stmt::Expr(e, None));
                    }
                }
            } else {
                let p = self.ph(&t);
                old.push(p);
            }
        }
        stmts.extend(old);
        b.stmts = stmts;
    }

    fn block(&mut self, b: &mut syn::Block) {
        let old = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in old {
            let text = s.to_token_stream().to_string();
            let mut before = vec![];
            let mut after = vec![];
            for i in 0..self.spec.stmts.len() {
                let (p, pos, t) = self.spec.stmts[i].clone();
                if !self.stmt_done[i] && text.starts_with(&norm(&p)) {
                    self.stmt_seen[i] += 1;
                    let nth: usize = pos.trim_start_matches(|c: char| c.is_alphabetic()).parse().unwrap_or(1);
                    if self.stmt_seen[i] < nth { continue; }
                    self.stmt_hit[i] = true;
                    self.stmt_done[i] = true;
                    if pos.starts_with("before") { before.push(t) } else { after.push(t) }
                }
            }
            for t in before { let p = self.ph(&t); out.push(p); }
            if self.drop_stmt(&s) { continue; }
            self.stmt(&mut s);
            if !after.is_empty() {
                if let Stmt::Expr(e, None) = s { s = Stmt::Expr(e, Some(Default::default())); }
            }
            out.push(s);
            for t in after { let p = self.ph(&t); out.push(p); }
        }
        b.stmts = out;
    }

    fn drop_stmt(&self, s: &Stmt) -> bool {
        match s {
            Stmt::Macro(m) => {
                let n = m.mac.path.to_token_stream().to_string();
                matches!(n.as_str(), "println" | "print" | "eprintln")
            }
            Stmt::Item(syn::Item::Use(_)) => true,
            _ => false,
        }
    }

    fn stmt(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let mut e2 = e;
            self.visit_expr_mut(&mut e2);
            *s = Stmt::Expr(e2, m.semi_token);
            return;
        }
        if let Stmt::Local(l) = s { l.attrs.clear(); }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn iter_of(&mut self, e: &Expr, hoist: &mut Vec<Stmt>, n: usize) -> Option<It> {
        let e = unparen(e);
        match &e {
            Expr::Range(r) => {
                let a = r.start.as_ref().map(|x| (**x).clone())?;
                let b = r.end.as_ref().map(|x| (**x).clone())?;
                Some(It::Range { a: unparen(&a), b: unparen(&b), incl: matches!(r.limits, syn::RangeLimits::Closed(_)) })
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let arg = |i: usize| m.args.iter().nth(i).cloned();
                match name.as_str() {
                    "iter" | "iter_mut" | "into_iter" if m.args.is_empty() => {
                        let base = peel(&m.receiver);
                        if let Expr::Call(c) = &base {
                            if c.func.to_token_stream().to_string() == "Some" {
                                self.uid += 1;
                                let v = id(&format!("vx_once{}", self.uid));
                                let x = c.args.first()?.clone();
                                hoist.push(parse_quote!(let #v = #x;));
                                return Some(It::Once(v, name == "iter"));
                            }
                        }
                        if name == "into_iter" {
                            if let Some(it) = self.iter_of(&m.receiver, hoist, n) { if !matches!(it, It::Elem { .. }) { return Some(it); } }
                        }
                        let by_ref = matches!(unparen(&m.receiver), Expr::Reference(_));
                        let kind = match name.as_str() {
                            "iter" => Kind::Ref,
                            "iter_mut" => Kind::Mut,
                            _ => {
                                if by_ref { Kind::Ref }
                                else if let Expr::Path(p) = &base {
                                    self.kinds.get(&p.to_token_stream().to_string()).copied().unwrap_or(Kind::Own)
                                } else { Kind::Own }
                            }
                        };
                        Some(It::Elem { base, kind })
                    }
                    "chunks" | "chunks_mut" | "chunks_exact" => {
                        self.uid += 1;
                        Some(It::Chunks { base: peel(&m.receiver), c: arg(0)?, mutable: name == "chunks_mut", id: self.uid, exact: name == "chunks_exact" })
                    }
                    // a copy of an iterator over a slice, kept in a variable
                    "clone" if m.args.is_empty() => {
                        let k = self.kinds.get(&m.receiver.to_token_stream().to_string()).copied()?;
                        Some(It::Elem { base: (*m.receiver).clone(), kind: k })
                    }
                    "enumerate" => Some(It::Enumerate(Box::new(self.iter_of(&m.receiver, hoist, n)?))),
                    "zip" => {
                        let a = self.iter_of(&m.receiver, hoist, n)?;
                        let b = self.iter_of(&arg(0)?, hoist, n)?;
                        Some(It::Zip(Box::new(a), Box::new(b)))
                    }
                    "chain" => {
                        let a = self.iter_of(&m.receiver, hoist, n)?;
                        let b = self.iter_of(&arg(0)?, hoist, n)?;
                        Some(It::Chain(Box::new(a), Box::new(b)))
                    }
                    "rev" => Some(It::Rev(Box::new(self.iter_of(&m.receiver, hoist, n)?))),
                    "skip" => Some(It::Skip(Box::new(self.iter_of(&m.receiver, hoist, n)?), arg(0)?)),
                    "take" => Some(It::Take(Box::new(self.iter_of(&m.receiver, hoist, n)?), arg(0)?)),
                    "step_by" => {
                        if let Some(It::Range { a, b, incl: false }) = self.iter_of(&m.receiver, hoist, n) {
                            Some(It::StepRange { a, b, s: arg(0)? })
                        } else { None }
                    }
                    _ => None,
                }
            }
            Expr::Reference(r) => {
                let kind = if r.mutability.is_some() { Kind::Mut } else { Kind::Ref };
                Some(It::Elem { base: peel(&e), kind })
            }
            Expr::Path(p) => {
                let k = self.kinds.get(&p.to_token_stream().to_string()).copied()?;
                Some(It::Elem { base: e.clone(), kind: k })
            }
            _ => None,
        }
    }

    fn it_len(&self, it: &It, hoist: &mut Vec<Stmt>) -> TokenStream {
        match it {
            It::Range { a, b, incl } => { assert!(!*incl); quote!(vx_range_len(#a, #b)) }
            It::StepRange { .. } => quote!(unsupported_step_range),
            It::Elem { base, .. } => quote!(#base.len()),
            It::Chunks { base, c, id: i, exact, .. } => {
                let l = id(&format!("vx_l{}", i));
                let cc = id(&format!("vx_c{}", i));
                let nn = id(&format!("vx_nc{}", i));
                hoist.push(parse_quote!(let #l: usize = #base.len();));
                hoist.push(parse_quote!(let #cc: usize = #c;));
                if *exact { hoist.push(parse_quote!(let #nn: usize = vx_num_chunks_exact(#l, #cc);)); }
                else { hoist.push(parse_quote!(let #nn: usize = vx_num_chunks(#l, #cc);)); }
                quote!(#nn)
            }
            It::Enumerate(x) | It::Rev(x) => self.it_len(x, hoist),
            It::Zip(a, b) => { let x = self.it_len(a, hoist); let y = self.it_len(b, hoist); quote!(vx_min(#x, #y)) }
            It::Chain(a, b) => { let x = self.it_len(a, hoist); let y = self.it_len(b, hoist); quote!((#x + #y)) }
            It::Skip(a, e) => { let x = self.it_len(a, hoist); quote!(vx_sat_sub(#x, #e)) }
            It::Take(a, e) => { let x = self.it_len(a, hoist); quote!(vx_min(#x, #e)) }
            It::Once(..) => quote!(1usize),
        }
    }

    fn it_get(&self, it: &It, k: &TokenStream) -> TokenStream {
        match it {
            It::Range { a, .. } => {
                if a.to_token_stream().to_string() == "0" { quote!(#k) } else { quote!((#a + #k)) }
            }
            It::StepRange { .. } => quote!(unsupported_step_range),
            It::Elem { base, kind } => match kind {
                Kind::Ref => quote!(&#base[#k]),
                Kind::Mut => quote!(&mut #base[#k]),
                Kind::Own => quote!(vx_own(&#base, #k)),
                Kind::Copy => quote!(#base[#k]),
            },
            It::Chunks { base, mutable, id: i, exact, .. } => {
                let cc = id(&format!("vx_c{}", i));
                if *mutable { quote!(vx_chunk_mut(&mut *#base, #k, #cc)) }
                else if *exact { quote!(vx_chunk_exact(&*#base, #k, #cc)) }
                else { quote!(vx_chunk(&*#base, #k, #cc)) }
            }
            It::Enumerate(x) => { let g = self.it_get(x, k); quote!((#k, #g)) }
            It::Zip(a, b) => { let x = self.it_get(a, k); let y = self.it_get(b, k); quote!((#x, #y)) }
            It::Chain(a, b) => {
                let mut h = vec![];
                let la = self.it_len(a, &mut h);
                let x = self.it_get(a, k);
                let y = self.it_get(b, &quote!((#k - #la)));
                quote!(if #k < #la { #x } else { #y })
            }
            It::Rev(a) => {
                if let It::Range { a, b, .. } = &**a { let _ = a; return quote!((#b - 1 - #k)); }
                let mut h = vec![];
                let la = self.it_len(a, &mut h);
                self.it_get(a, &quote!((#la - 1 - #k)))
            }
            It::Skip(a, e) => self.it_get(a, &quote!((#k + #e))),
            It::Take(a, _) => self.it_get(a, k),
            It::Once(v, byref) => if *byref { quote!(&#v) } else { quote!(#v) },
        }
    }

    fn note_kind(&mut self, it: &It, pat: &Pat) {
        match (it, pat) {
            (It::Chunks { mutable, .. }, Pat::Ident(p)) => {
                self.kinds.insert(p.ident.to_string(), if *mutable { Kind::Mut } else { Kind::Ref });
            }
            (It::Enumerate(x), Pat::Tuple(t)) if t.elems.len() == 2 => { let p = t.elems[1].clone(); self.note_kind(x, &p) }
            (It::Zip(a, b), Pat::Tuple(t)) if t.elems.len() == 2 => {
                let (p, q) = (t.elems[0].clone(), t.elems[1].clone());
                self.note_kind(a, &p);
                self.note_kind(b, &q)
            }
            _ => {}
        }
    }

    fn bind(&self, it: &It, k: &TokenStream, pat: &Pat, out: &mut Vec<Stmt>) {
        match (it, pat) {
            (_, Pat::Wild(_)) => {}
            (It::Enumerate(x), Pat::Tuple(t)) if t.elems.len() == 2 => {
                let p = &t.elems[0];
                // element first, index second: the element expression may use an outer variable with the index's name
                let mut inner = vec![];
                self.bind(x, k, &t.elems[1], &mut inner);
                out.extend(inner);
                if !matches!(p, Pat::Wild(_)) { out.push(parse_quote!(let #p = #k;)); }
            }
            (It::Zip(a, b), Pat::Tuple(t)) if t.elems.len() == 2 => {
                self.bind(a, k, &t.elems[0], out);
                self.bind(b, k, &t.elems[1], out);
            }
            (It::Elem { base, kind: Kind::Ref }, Pat::Reference(r)) => {
                let p = &r.pat;
                out.push(parse_quote!(let #p = #base[#k];));
            }
            (It::Elem { base, kind: Kind::Ref }, Pat::Tuple(t)) if t.elems.len() == 2 => {
                // match-ergonomics destructuring of &(A, B)
                let (p, q) = (&t.elems[0], &t.elems[1]);
                if !matches!(p, Pat::Wild(_)) { out.push(parse_quote!(let #p = &#base[#k].0;)); }
                if !matches!(q, Pat::Wild(_)) { out.push(parse_quote!(let #q = &#base[#k].1;)); }
            }
            _ => {
                let g = self.it_get(it, k);
                out.push(parse_quote!(let #pat = #g;));
            }
        }
    }

    fn chunk_lemmas(&self, it: &It, k: &Ident, out: &mut String) {
        match it {
            It::Chunks { id: i, exact, .. } => {
                if *exact { out.push_str(&format!("lemma_chunk_exact_step({} as int, vx_c{} as int, vx_l{} as int);\n", k, i, i)); }
                else { out.push_str(&format!("lemma_chunk_step({} as int, vx_c{} as int, vx_l{} as int);\n", k, i, i)); }
            }
            It::Enumerate(x) | It::Rev(x) | It::Skip(x, _) | It::Take(x, _) => self.chunk_lemmas(x, k, out),
            It::Zip(a, b) | It::Chain(a, b) => { self.chunk_lemmas(a, k, out); self.chunk_lemmas(b, k, out); }
            _ => {}
        }
    }

    fn slot(&self, n: usize, kind: &str) -> Option<String> {
        self.spec.loops.get(&n).and_then(|m| m.get(kind)).cloned()
    }

    fn for_loop(&mut self, f: &mut syn::ExprForLoop) -> Option<Expr> {
        self.n_loops += 1;
        let n = self.n_loops;
        let mut hoist: Vec<Stmt> = vec![];
        // rewrite inside the iterator expression first (pow, macros), not loops
        let mut iter_expr = (*f.expr).clone();
        visit_mut::visit_expr_mut(self, &mut iter_expr);
        if self.spec.iterkind.get(&iter_expr.to_token_stream().to_string()).map(|x| x == "next").unwrap_or(false) {
            // an iterator known only through its own `next`: `for p in e {b}` is `loop { match e.next() { Some(p) => b, None => break } }`
            self.block(&mut f.body);
            let it = id(&format!("vx_it{}", n));
            let nx = id(&format!("vx_next{}", n));
            let p = &f.pat;
            let mut body: Vec<Stmt> = vec![];
            let t = self.slot(n, "inv").unwrap_or_default();
            body.push(self.inv(&t));
            if let Some(t) = self.slot(n, "start") { let p = self.ph(&t); body.push(p); }
            body.push(parse_quote!(let #nx = #it.next();));
            let mut inner: Vec<Stmt> = vec![];
            if let Some(t) = self.slot(n, "bound") { let p = self.ph(&t); inner.push(p); }
            inner.extend(std::mem::take(&mut f.body.stmts));
            if let Some(t) = self.slot(n, "inner_end") { let p = self.ph(&t); inner.push(p); }
            body.push(parse_quote!(match #nx { Some(#p) => { #(#inner)* } None => { break; } }));
            let lab = &f.label;
            let before = self.slot(n, "before").map(|t| self.ph(&t));
            let after = self.slot(n, "after").map(|t| self.ph(&t));
            return Some(parse_quote!({ let mut #it = #iter_expr; #before #lab loop { #(#body)* } #after }));
        }
        let it = match self.iter_of(&iter_expr, &mut hoist, n) { Some(i) => i, None => { 
            self.block(&mut f.body);
            let t = self.slot(n, "inv").unwrap_or_default();
            let p = self.inv(&t);
            f.body.stmts.insert(0, p);
            return None } };
        self.note_kind(&it, &f.pat);
        self.block(&mut f.body);
        let label = f.label.clone();
        let k = id(&format!("vx_k{}", n));
        let i = id(&format!("vx_i{}", n));
        let nn = id(&format!("vx_n{}", n));
        let mut pre: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        let step: Stmt;
        match &it {
            It::Range { a, b, incl: false } => {
                pre.push(parse_quote!(let #nn = #b;));
                pre.push(parse_quote!(let mut #k = #a;));
                step = parse_quote!(#k = #k + 1;);
                let p = &f.pat;
                if !matches!(**p, Pat::Wild(_)) { binds.push(parse_quote!(let #p = #i;)); }
            }
            It::StepRange { a, b, s } => {
                pre.push(parse_quote!(let #nn = #b;));
                pre.push(parse_quote!(let mut #k = #a;));
                step = parse_quote!(#k = vx_step(#k, #s););
                let p = &f.pat;
                if !matches!(**p, Pat::Wild(_)) { binds.push(parse_quote!(let #p = #i;)); }
            }
            _ => {
                let mut h2 = vec![];
                let l = self.it_len(&it, &mut h2);
                pre.extend(h2);
                pre.push(parse_quote!(let #nn: usize = #l;));
                pre.push(parse_quote!(let mut #k: usize = 0;));
                step = parse_quote!(#k = #k + 1;);
                self.bind(&it, &i.to_token_stream(), &f.pat, &mut binds);
            }
        }
        let mut body: Vec<Stmt> = vec![];
        let t = self.slot(n, "inv").unwrap_or_default();
        body.push(self.inv(&t));
        if self.cover && !self.spec.nocover { body.push({ let n = self.table.len(); self.ph(&format!("proof {{ assert(vx_cov({})); }} // COVER-LOOP", n)) }); }
        body.push(parse_quote!(let #i = #k;));
        body.push(step);
        let mut lem = String::new();
        self.chunk_lemmas(&it, &i, &mut lem);
        if !lem.is_empty() { let p = self.ph(&format!("proof {{ {} }}", lem)); body.push(p); }
        if let Some(t) = self.slot(n, "start") { let p = self.ph(&t); body.push(p); }
        let mut inner = binds;
        if let Some(t) = self.slot(n, "bound") { let p = self.ph(&t); inner.push(p); }
        let mut bs = std::mem::take(&mut f.body.stmts);
        if let Some(t) = self.slot(n, "inner_end") {
            if let Some(Stmt::Expr(_, semi @ None)) = bs.last_mut() { *semi = Some(Default::default()); }
            let p = self.ph(&t);
            bs.push(p);
        }
        inner.extend(bs);
        body.push(parse_quote!({ #(#inner)* }));
        if let Some(t) = self.slot(n, "end") {
            if let Some(Stmt::Expr(_, semi @ None)) = body.last_mut() { *semi = Some(Default::default()); }
            let p = self.ph(&t); body.push(p);
        }
        let mut all: Vec<Stmt> = hoist;
        all.extend(pre);
        if let Some(t) = self.slot(n, "before") { let p = self.ph(&t); all.push(p); }
        let w: Stmt = if let Some(l) = label { Stmt::Expr(parse_quote!(#l while #k < #nn { #(#body)* }), None) } else { Stmt::Expr(parse_quote!(while #k < #nn { #(#body)* }), None) };
        all.push(w);
        if let Some(t) = self.slot(n, "after") { let p = self.ph(&t); all.push(p); }
        Some(parse_quote!({ #(#all)* }))
    }

    fn plain_loop(&mut self, body: &mut syn::Block) -> (Option<Stmt>, Option<Stmt>) {
        self.n_loops += 1;
        let n = self.n_loops;
        self.block(body);
        let mut out = vec![];
        let t = self.slot(n, "inv").unwrap_or_default();
        out.push(self.inv(&t));
        if self.cover && !self.spec.nocover { out.push({ let n = self.table.len(); self.ph(&format!("proof {{ assert(vx_cov({})); }} // COVER-LOOP", n)) }); }
        if let Some(t) = self.slot(n, "start") { let p = self.ph(&t); out.push(p); }
        out.extend(std::mem::take(&mut body.stmts));
        if let Some(t) = self.slot(n, "end") {
            if let Some(Stmt::Expr(_, semi @ None)) = out.last_mut() { *semi = Some(Default::default()); }
            let p = self.ph(&t);
            out.push(p);
        }
        body.stmts = out;
        let b = self.slot(n, "before").map(|t| self.ph(&t));
        let a = self.slot(n, "after").map(|t| self.ph(&t));
        (b, a)
    }
}

fn closure_of(e: &Expr) -> Option<&syn::ExprClosure> { if let Expr::Closure(c) = e { Some(c) } else { None } }

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) { self.block(b); }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.spec.iterkind.contains_key("opcalls") {
            // compound assignments to user types become calls of the unit's operator traits
            if let Expr::Binary(b) = e {
                let m = match b.op { syn::BinOp::AddAssign(_) => Some("vx_op_add"), syn::BinOp::SubAssign(_) => Some("vx_op_sub"), syn::BinOp::MulAssign(_) => Some("vx_op_mul"), _ => None };
                if let Some(m) = m {
                    let (l, r, m) = ((*b.left).clone(), (*b.right).clone(), id(m));
                    *e = parse_quote!((#l).#m(#r));
                }
            }
        }

        match e {
            Expr::ForLoop(f) => {
                if let Some(n) = self.for_loop(f) { *e = n; }
                return;
            }
            Expr::While(w) => {
                visit_mut::visit_expr_mut(self, &mut w.cond);
                let (b, a) = self.plain_loop(&mut w.body);
                if b.is_some() || a.is_some() {
                    let w = e.clone();
                    *e = parse_quote!({ #b #w #a });
                }
                return;
            }
            Expr::Loop(w) => {
                let (b, a) = self.plain_loop(&mut w.body);
                if b.is_some() || a.is_some() {
                    let w = e.clone();
                    *e = parse_quote!({ #b #w #a });
                }
                return;
            }
            Expr::MethodCall(m) if m.method == "scope" && m.args.len() == 2 && closure_of(&m.args[1]).is_some() => {
                // worker.scope(n, |scope, chunk| body)  ==>  { let chunk = worker.get_chunk_size(n); body }
                let recv = m.receiver.clone();
                let n = m.args[0].clone();
                let c = closure_of(&m.args[1]).unwrap().clone();
                let chunk = c.inputs.iter().nth(1).cloned().unwrap();
                let body = match *c.body { Expr::Block(b) => b.block.stmts, other => vec![Stmt::Expr(other, None)] };
                let head: Stmt = if matches!(chunk, Pat::Wild(_)) { parse_quote!(let _vx_chunk = #recv.get_chunk_size(#n);) } else { parse_quote!(let #chunk = #recv.get_chunk_size(#n);) };
                let mut b: syn::Block = parse_quote!({ #head #(#body)* });
                self.block(&mut b);
                *e = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b });
                return;
            }
            Expr::MethodCall(m) if m.method == "spawn" && m.args.len() == 1 && closure_of(&m.args[0]).is_some() => {
                let c = closure_of(&m.args[0]).unwrap().clone();
                let mut b = match *c.body { Expr::Block(b) => b.block, other => parse_quote!({ #other; }) };
                self.block(&mut b);
                *e = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b });
                return;
            }
            Expr::MethodCall(m) if m.method == "collect" => {
                // E.map(|p| body).collect()  ==>  loop pushing into a Vec
                if let Expr::MethodCall(mm) = &*m.receiver {
                    if mm.method == "filter" && mm.args.len() == 1 {
                        // E.filter(|p| cond).collect()  ==>  loop pushing the items that satisfy cond
                        if let Some(c) = closure_of(&mm.args[0]) {
                            let src = mm.receiver.clone();
                            let pat = c.inputs.first().cloned().unwrap();
                            let pat = if let Pat::Type(t) = pat { *t.pat } else { pat };
                            let body = c.body.clone();
                            let out = id(&format!("vx_out{}", self.n_loops + 1));
                            let mut b: syn::Block = parse_quote!({
                                let mut #out = Vec::new();
                                for #pat in #src { if #body { #out.push(#pat); } }
                                #out
                            });
                            self.block(&mut b);
                            *e = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b });
                            return;
                        }
                    }
                    if mm.method == "map" && mm.args.len() == 1 {
                        if let Some(c) = closure_of(&mm.args[0]) {
                            let src = mm.receiver.clone();
                            let pat = c.inputs.first().cloned().unwrap();
                            let pat = if let Pat::Type(t) = pat { *t.pat } else { pat };
                            let body = c.body.clone();
                            let out = id(&format!("vx_out{}", self.n_loops + 1));
                            let mut b: syn::Block = parse_quote!({
                                let mut #out = Vec::new();
                                for #pat in #src { let vx_item = #body; #out.push(vx_item); }
                                #out
                            });
                            self.block(&mut b);
                            *e = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b });
                            return;
                        }
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && closure_of(&m.args[0]).is_some()
                && matches!(&*m.receiver, Expr::MethodCall(r) if matches!(r.method.to_string().as_str(), "inverse" | "get" | "last" | "first")) => {
                // Option::map over a closure  ==>  match
                let c = closure_of(&m.args[0]).unwrap().clone();
                let pat = c.inputs.first().cloned().unwrap();
                let pat = if let Pat::Type(t) = pat { *t.pat } else { pat };
                let body = match *c.body { Expr::Block(b) => b.block.stmts, other => vec![Stmt::Expr(other, None)] };
                let recv = m.receiver.clone();
                let mut n: Expr = parse_quote!(match #recv { Some(#pat) => { let vx_mapped = { #(#body)* }; Some(vx_mapped) } None => None });
                visit_mut::visit_expr_mut(self, &mut n);
                *e = n;
                return;
            }
            Expr::MethodCall(m) if m.method == "cloned" && m.args.is_empty()
                && matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "last" && r.args.is_empty()) => {
                if let Expr::MethodCall(r) = &*m.receiver {
                    let mut v = (*r.receiver).clone();
                    self.visit_expr_mut(&mut v);
                    *e = parse_quote!(vx_last_cloned((#v).as_slice()));
                    return;
                }
            }
            Expr::MethodCall(m) if m.method == "pow" && m.args.len() == 1 => {
                let a = peel(&m.args[0]);
                if let Expr::Array(arr) = a {
                    if arr.elems.len() == 1 {
                        let x = arr.elems[0].clone();
                        m.args = std::iter::once(x).collect();
                        m.method = id("pow_u64");
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::MethodCall(m) if m.method == "contains" && m.args.len() == 1 => {
                visit_mut::visit_expr_mut(self, &mut m.receiver);
                visit_mut::visit_expr_mut(self, &mut m.args[0]);
                let (r, a) = (m.receiver.clone(), m.args[0].clone());
                *e = parse_quote!(vx_contains(&#r, #a));
                return;
            }
            Expr::MethodCall(m) if m.method == "sort" && m.args.is_empty() => {
                let r = m.receiver.clone();
                *e = parse_quote!(vx_sort(&mut #r));
                return;
            }
            Expr::MethodCall(m) if m.method == "expect" && m.args.len() == 1 => {
                m.method = id("unwrap");
                m.args.clear();
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::MethodCall(m) if m.method == "to_owned" && m.receiver.to_token_stream().to_string().starts_with('"') => {
                *e = parse_quote!(vx_string());
                return;
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string();
                if f == "F :: from_str" && c.args.len() == 1 {
                    if let Expr::Reference(r) = &c.args[0] {
                        if let Expr::MethodCall(mc) = &*r.expr {
                            if mc.method == "to_string" && mc.args.is_empty() {
                                // decimal rendering of an unsigned integer, read back as a field element
                                let x = &mc.receiver;
                                *e = parse_quote!(vx_field_from_dec::<F>((#x) as usize));
                                return;
                            }
                        }
                        if let Expr::Macro(m) = &*r.expr {
                            if m.mac.path.is_ident("format") {
                                let t: Vec<_> = m.mac.tokens.clone().into_iter().collect();
                                if t.len() >= 3 && t[0].to_string() == "\"{}\"" {
                                    let rest: TokenStream = t[2..].iter().cloned().collect();
                                    *e = parse_quote!(vx_field_from_dec::<F>(#rest));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.to_token_stream().to_string();
                let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                match n.as_str() {
                    "assert" | "debug_assert" => {
                        let a = syn::parse::Parser::parse2(parser, m.mac.tokens.clone()).unwrap();
                        let mut c = a[0].clone();
                        self.visit_expr_mut(&mut c);
                        *e = parse_quote!(vx_assert(#c));
                        return;
                    }
                    "assert_eq" | "debug_assert_eq" => {
                        let a = syn::parse::Parser::parse2(parser, m.mac.tokens.clone()).unwrap();
                        let (mut x, mut y) = (a[0].clone(), a[1].clone());
                        self.visit_expr_mut(&mut x);
                        self.visit_expr_mut(&mut y);
                        *e = parse_quote!(vx_assert(#x == #y));
                        return;
                    }
                    "format" => { *e = parse_quote!(vx_string()); return; }
                    "panic" | "unreachable" | "unimplemented" => { *e = parse_quote!(vx_panic()); return; }
                    "vec" => {
                        let ts = m.mac.tokens.clone();
                        if ts.is_empty() { *e = parse_quote!(Vec::new()); return; }
                        struct Rep(Expr, Expr);
                        impl syn::parse::Parse for Rep {
                            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                                let a = i.parse()?; i.parse::<syn::Token![;]>()?; let b = i.parse()?; Ok(Rep(a, b))
                            }
                        }
                        if let Ok(Rep(mut a, mut b)) = parse2::<Rep>(ts.clone()) {
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            *e = parse_quote!(vx_vec_repeat(#a, #b));
                            return;
                        }
                        let a = syn::parse::Parser::parse2(parser, ts).unwrap();
                        let mut xs: Vec<Expr> = a.into_iter().collect();
                        for x in xs.iter_mut() { self.visit_expr_mut(x); }
                        let f = id(&format!("vx_vec{}", xs.len()));
                        *e = parse_quote!(#f(#(#xs),*));
                        return;
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
#[allow(dead_code)]
fn _t() -> TokenStream { toks("") }
