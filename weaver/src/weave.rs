use crate::json_str;
use crate::spec::*;
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{HashMap, HashSet};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub struct Woven {
    pub text: String,
    pub report: String,
}

type Tok = (String, Range<usize>);

fn flatten(ts: TokenStream, out: &mut Vec<Tok>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    out.push((o.into(), g.span_open().byte_range()));
                }
                flatten(g.stream(), out);
                if !c.is_empty() {
                    out.push((c.into(), g.span_close().byte_range()));
                }
            }
            other => out.push((other.to_string(), other.span().byte_range())),
        }
    }
}

/// token sequence of a pattern; delimiters need not be balanced
fn pattern(p: &str) -> Result<Vec<String>, String> {
    let mut out = vec![];
    let mut chunk = String::new();
    let flush = |chunk: &mut String, out: &mut Vec<String>| -> Result<(), String> {
        let ts: TokenStream = chunk.parse().map_err(|e| format!("pattern `{p}`: {e}"))?;
        let mut v = vec![];
        flatten(ts, &mut v);
        out.extend(v.into_iter().map(|x| x.0));
        chunk.clear();
        Ok(())
    };
    for c in p.chars() {
        if "()[]{}".contains(c) {
            flush(&mut chunk, &mut out)?;
            out.push(c.to_string());
        } else {
            chunk.push(c);
        }
    }
    flush(&mut chunk, &mut out)?;
    Ok(out)
}

/// all occurrences of pattern in tokens[lo..hi): index of first/last token
fn occurrences(toks: &[Tok], pat: &[String]) -> Vec<(usize, usize)> {
    let mut r = vec![];
    if pat.is_empty() || toks.len() < pat.len() {
        return r;
    }
    let mut i = 0;
    while i + pat.len() <= toks.len() {
        if (0..pat.len()).all(|k| toks[i + k].0 == pat[k]) {
            r.push((i, i + pat.len() - 1));
            i += pat.len();
        } else {
            i += 1;
        }
    }
    r
}

/// expression building the text of `format!(parts...)`
fn format_pieces(parts: &[String]) -> Option<String> {
    let lit: syn::LitStr = syn::parse_str(parts.first()?).ok()?;
    let text: Vec<char> = lit.value().chars().collect();
    let mut out: Vec<String> = vec![];
    let mut cur = String::new();
    let mut next = 1;
    let mut i = 0;
    while i < text.len() {
        match text[i] {
            '{' if text.get(i + 1) == Some(&'{') => {
                cur.push('{');
                i += 2;
            }
            '}' if text.get(i + 1) == Some(&'}') => {
                cur.push('}');
                i += 2;
            }
            '{' => {
                let e = (i..text.len()).find(|&k| text[k] == '}')?;
                let spec: String = text[i + 1..e].iter().collect();
                let (name, fmt) = match spec.split_once(':') {
                    Some((n, f)) => (n.to_string(), f.to_string()),
                    None => (spec.clone(), String::new()),
                };
                let arg = if name.is_empty() {
                    next += 1;
                    parts.get(next - 1)?.clone()
                } else if name.chars().all(|c| c.is_ascii_digit()) {
                    parts.get(1 + name.parse::<usize>().ok()?)?.clone()
                } else {
                    name
                };
                if !cur.is_empty() {
                    out.push(format!("crate::prelude::vlit({:?})", cur));
                    cur.clear();
                }
                if fmt.is_empty() {
                    out.push(format!("crate::prelude::VDisplay::vdisplay(&({arg}))"));
                } else {
                    let w = fmt.strip_suffix('x')?;
                    let w = if w.is_empty() { 0 } else { w.strip_prefix('0')?.parse::<usize>().ok()? };
                    out.push(format!("crate::prelude::vhex({arg}, {w})"));
                }
                i = e + 1;
            }
            '}' => return None,
            c => {
                cur.push(c);
                i += 1;
            }
        }
    }
    if !cur.is_empty() || out.is_empty() {
        out.push(format!("crate::prelude::vlit({:?})", cur));
    }
    let mut it = out.into_iter();
    let mut e = it.next()?;
    for p in it {
        e = format!("crate::prelude::vcat({e}, {p})");
    }
    Some(e)
}

#[derive(Default)]
struct Collect {
    // `return e` outside of closures: (whole, e)
    returns: Vec<(Range<usize>, Range<usize>)>,
    closure_depth: usize,
    loops: Vec<(Range<usize>, Range<usize>, Option<(usize, Range<usize>)>)>, // whole, body block, (pat end, expr) for `for`
    stmts: Vec<Range<usize>>,
    for_derefs: Vec<(Range<usize>, usize, String)>, // `&x` pattern of a for loop, body start, x
    arm_derefs: Vec<(Range<usize>, Range<usize>, String)>, // `&x` in a match arm, arm body, x
    closures: Vec<(Range<usize>, usize, bool, Range<usize>, String)>, // whole, body start, body is block, body, dereferences of `&x` patterns
    nested: Vec<(String, Range<usize>)>,
    nested_fns: Vec<syn::ItemFn>,
    macros: Vec<(String, Range<usize>, Vec<Tok>)>,
    /// `R.iter().all(F)` / `R.iter().any(F)`: whole, end of R, start of F, name
    quantified: Vec<(Range<usize>, usize, usize, String)>,
    /// `R.fold(E, F)`, `R.all(F)`, `R.any(F)`, `R.map(F).collect()`
    adaptors: Vec<Adaptor>,
}

struct Adaptor {
    whole: Range<usize>,
    name: String,
    recv: Range<usize>,
    init: Option<Range<usize>>,
    closure: Range<usize>,
    body: Range<usize>,
    /// identifiers or patterns of the parameters, as source text
    params: Vec<Range<usize>>,
    /// `X.iter().enumerate().filter(|P| F)` in front: X, P and F
    filter: Option<(Range<usize>, Range<usize>, Range<usize>)>,
}

/// X, the parameter and the body of `X.iter().enumerate().filter(|P| F)`
fn enumerated_filter(e: &syn::Expr) -> Option<(Range<usize>, Range<usize>, Range<usize>)> {
    let f = match e {
        syn::Expr::MethodCall(f) if f.method == "filter" && f.args.len() == 1 => f,
        _ => return None,
    };
    let n = match &*f.receiver {
        syn::Expr::MethodCall(n) if n.method == "enumerate" && n.args.is_empty() => n,
        _ => return None,
    };
    let i = match &*n.receiver {
        syn::Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty() => i,
        _ => return None,
    };
    match &f.args[0] {
        syn::Expr::Closure(c) if c.inputs.len() == 1 => Some((i.receiver.span().byte_range(), c.inputs[0].span().byte_range(), c.body.span().byte_range())),
        _ => None,
    }
}

fn adaptor(e: &syn::ExprMethodCall, name: &str, whole: Range<usize>) -> Option<Adaptor> {
    let c = match e.args.last() {
        Some(syn::Expr::Closure(c)) => c,
        _ => return None,
    };
    let want = match (name, e.args.len()) {
        ("fold", 2) => 2,
        ("all", 1) | ("any", 1) | ("collect", 1) => 1,
        _ => return None,
    };
    if c.inputs.len() != want {
        return None;
    }
    Some(Adaptor {
        whole,
        name: name.to_string(),
        recv: e.receiver.span().byte_range(),
        init: if name == "fold" { Some(e.args[0].span().byte_range()) } else { None },
        closure: c.span().byte_range(),
        body: c.body.span().byte_range(),
        params: c.inputs.iter().map(|p| p.span().byte_range()).collect(),
        filter: if name == "collect" { enumerated_filter(&e.receiver) } else { None },
    })
}

/// `(i, &c)` as bindings of the index v and the element x[v]
fn pair_bindings(pat: &str, x: &str, v: &str) -> Option<String> {
    let p = pat.trim().strip_prefix('(')?.strip_suffix(')')?;
    let parts: Vec<&str> = p.split(',').map(|q| q.trim()).collect();
    if parts.len() != 2 {
        return None;
    }
    let ident = |q: &str| !q.is_empty() && q.chars().all(|c| c.is_alphanumeric() || c == '_');
    let mut out = String::new();
    if ident(parts[0]) {
        if parts[0] != "_" {
            out += &format!("let {} = {v}; ", parts[0]);
        }
    } else {
        return None;
    }
    let e = parts[1].strip_prefix('&')?.trim();
    if !ident(e) {
        return None;
    }
    if e != "_" {
        out += &format!("let {e} = {x}[{v}]; ");
    }
    Some(out)
}

impl<'a> Visit<'a> for Collect {
    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
        let name = e.method.to_string();
        let mut ad = None;
        match name.as_str() {
            "fold" | "all" | "any" => ad = adaptor(e, &name, e.span().byte_range()),
            "collect" => {
                if let syn::Expr::MethodCall(m) = &*e.receiver {
                    if m.method == "map" {
                        ad = adaptor(m, "collect", e.span().byte_range());
                    }
                }
            }
            _ => {}
        }
        if let Some(a) = ad {
            self.adaptors.push(a);
        }
        if (name == "all" || name == "any") && e.args.len() == 1 {
            if let syn::Expr::MethodCall(it) = &*e.receiver {
                if it.method == "iter" && it.args.is_empty() {
                    self.quantified.push((e.span().byte_range(), it.receiver.span().byte_range().end, e.args[0].span().byte_range().start, name));
                }
            }
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if let (syn::Pat::TupleStruct(t), None) = (&a.pat, &a.guard) {
            for p in &t.elems {
                if let syn::Pat::Reference(r) = p {
                    if let (syn::Pat::Ident(i), None) = (&*r.pat, &r.mutability) {
                        if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() {
                            self.arm_derefs.push((r.span().byte_range(), a.body.span().byte_range(), i.ident.to_string()));
                        }
                    }
                }
            }
        }
        syn::visit::visit_arm(self, a);
    }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.loops.push((e.span().byte_range(), e.body.span().byte_range(), Some((e.expr.span().byte_range().start, e.expr.span().byte_range()))));
        if let syn::Pat::Reference(r) = &*e.pat {
            if let syn::Pat::Ident(i) = &*r.pat {
                self.for_derefs.push((r.span().byte_range(), e.body.span().byte_range().start, i.ident.to_string()));
            }
        }
        syn::visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.loops.push((e.span().byte_range(), e.body.span().byte_range(), None));
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.loops.push((e.span().byte_range(), e.body.span().byte_range(), None));
        syn::visit::visit_expr_loop(self, e);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
            self.nested.push((f.sig.ident.to_string(), f.span().byte_range()));
            self.nested_fns.push(f.clone());
            return;
        }
        self.stmts.push(s.span().byte_range());
        syn::visit::visit_stmt(self, s);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let b = c.body.span().byte_range();
        let mut deref = String::new();
        for (k, p) in c.inputs.iter().enumerate() {
            match p {
                syn::Pat::Reference(r) => {
                    if let syn::Pat::Ident(i) = &*r.pat {
                        deref.push_str(&format!("let {0} = *{0}; ", i.ident));
                    }
                }
                // `|(a, b)| e` is `|vp0| { let (a, b) = vp0; e }`
                syn::Pat::Tuple(t) => deref.push_str(&format!("let {} = vp{k}; ", quote::quote!(#t))),
                _ => {}
            }
        }
        self.closures.push((c.span().byte_range(), b.start, matches!(*c.body, syn::Expr::Block(_)), b, deref));
        self.closure_depth += 1;
        syn::visit::visit_expr_closure(self, c);
        self.closure_depth -= 1;
    }
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) {
        if let (0, Some(x)) = (self.closure_depth, &e.expr) {
            self.returns.push((e.span().byte_range(), x.span().byte_range()));
        }
        syn::visit::visit_expr_return(self, e);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let mut v = vec![];
        flatten(m.tokens.clone(), &mut v);
        self.macros.push((name, m.span().byte_range(), v));
    }
}

struct FnReport {
    key: String,
    mode: String,
    props: Vec<String>,
    why: String,
    lost: Vec<String>,
    rewrites: Vec<String>,
    spec_loops: usize,
    src_line: usize,
    src_hash: u64,
}

struct W<'a> {
    spec: &'a ModuleSpec,
    src: &'a str,
    toks: Vec<Tok>,
    /// (start, end, replacement, priority)
    edits: Vec<(usize, usize, String, i32)>,
    reports: Vec<FnReport>,
    hoisted: Vec<(Range<usize>, usize, Range<usize>)>,
    demote: &'a HashSet<String>,
    strip: &'a HashSet<String>,
    uncontracted: Vec<String>,
    dropped: Vec<String>,
    seen: HashSet<String>,
}

fn last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", last_ident(&r.elem)),
        _ => quote::quote!(#t).to_string().replace(' ', ""),
    }
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl<'a> W<'a> {
    fn ins(&mut self, pos: usize, text: impl Into<String>, pri: i32) {
        self.edits.push((pos, pos, text.into(), pri));
    }
    fn rep(&mut self, r: Range<usize>, text: impl Into<String>) {
        self.edits.push((r.start, r.end, text.into(), 0));
    }
    fn line_of(&self, pos: usize) -> usize {
        self.src[..pos].bytes().filter(|b| *b == b'\n').count() + 1
    }
    fn toks_in(&self, r: &Range<usize>) -> Vec<Tok> {
        self.toks.iter().filter(|t| t.1.start >= r.start && t.1.end <= r.end).cloned().collect()
    }

    /// end of the outer attributes of an item = position of visibility / first keyword
    fn vis_fix(&mut self, vis: &syn::Visibility, start: usize) {
        match vis {
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => self.rep(r.span().byte_range(), "pub"),
            syn::Visibility::Inherited => self.ins(start, "pub ", 5),
        }
    }

    fn drop_item(&mut self, r: Range<usize>, what: String) {
        self.rep(r, "");
        self.dropped.push(what);
    }

    #[allow(clippy::too_many_arguments)]
    fn do_fn(&mut self, key: String, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: &syn::Block, whole: Range<usize>, in_trait_impl: bool, nested_in: Option<String>) {
        self.seen.insert(key.clone());
        let specs = self.spec;
        let spec = specs.fns.iter().find(|f| f.key == key);
        let sig_start = sig.span().byte_range().start;
        let head = match vis {
            Some(syn::Visibility::Inherited) | None => sig_start,
            Some(v) => v.span().byte_range().start,
        };
        let body = block.span().byte_range();
        // nested functions first
        let mut col = Collect::default();
        col.visit_block(block);
        // drop attributes that the verifier macro does not know (doc comments stay)
        for a in attrs {
            if a.path().is_ident("inline") || a.path().is_ident("must_use") || a.path().is_ident("deprecated") {
                self.rep(a.span().byte_range(), "");
            }
        }
        let mut mode = match spec {
            None => Mode::External,
            Some(f) => f.mode.clone(),
        };
        let mut lost: Vec<String> = vec![];
        let mut rewrites: Vec<String> = vec![];
        if mode == Mode::Drop {
            let r = whole.clone();
            self.drop_item(r, format!("fn {key}"));
            return;
        }
        if spec.is_none() {
            self.uncontracted.push(key.clone());
        }
        let mut mode_name = match mode {
            Mode::Verify => "verify",
            Mode::Trusted => "trusted",
            Mode::External => "external",
            Mode::Drop => "drop",
        }
        .to_string();
        if mode == Mode::Verify || mode == Mode::Trusted {
            let qkey = format!("{}::{}", self.spec.name, key);
            if self.strip.contains(&qkey) {
                mode = Mode::External;
                mode_name = "stripped".into();
            } else if mode == Mode::Verify && self.demote.contains(&qkey) {
                mode = Mode::Trusted;
                mode_name = "demoted".into();
            }
        }
        // collect edits for the body tentatively: if an anchor is lost the body becomes external
        let save = self.edits.len();
        if mode == Mode::Verify {
            let f = spec.unwrap();
            self.weave_body(f, &key, sig, block, &col, &whole, &mut lost, &mut rewrites);
            if !lost.is_empty() {
                self.edits.truncate(save);
                rewrites.clear();
                mode = Mode::Trusted;
                mode_name = "lost".into();
            }
        }
        // hoist nested functions
        for (k, nf) in col.nested_fns.iter().enumerate() {
            let nkey = format!("{key}::{}", nf.sig.ident);
            if mode == Mode::Verify || mode == Mode::Trusted || mode == Mode::External {
                let name = nf.sig.ident.to_string();
                let mangled = nkey.replace("::", "__").replace(' ', "_");
                let r = col.nested[k].1.clone();
                if spec.is_some() {
                    // rename uses in the enclosing body and in the nested function
                    let toks = self.toks_in(&body);
                    for (i, t) in toks.iter().enumerate() {
                        if t.0 == name {
                            let prev = if i > 0 { toks[i - 1].0.as_str() } else { "" };
                            if prev != "." && prev != ":" {
                                self.rep(t.1.clone(), mangled.clone());
                            }
                        }
                    }
                    let first_edit = self.edits.len();
                    self.do_fn(nkey, &nf.attrs, Some(&nf.vis), &nf.sig, &nf.block, r.clone(), false, Some(mangled));
                    let idx = self.edits.len();
                    self.edits.push((r.start, r.end, String::new(), 100));
                    self.hoisted.push((r, idx, first_edit..idx));
                    rewrites.push("nested fn hoisted to module level".into());
                }
            }
        }
        // head
        let mut h = String::new();
        h.push_str(&format!("/*@F {key}*/ "));
        match mode {
            Mode::Trusted => h.push_str("#[verifier::external_body] "),
            Mode::External if in_trait_impl => h.push_str("#[verifier::external_body] "),
            Mode::External => h.push_str("#[verifier::external] "),
            _ => {}
        }
        if let Some(f) = spec {
            if mode != Mode::External {
                for a in &f.attrs {
                    h.push_str(a);
                    h.push(' ');
                }
            }
        }
        self.ins(head, h, 0);
        if !in_trait_impl {
            match vis {
                Some(v) => self.vis_fix(v, sig_start),
                None => self.ins(sig_start, "pub ", 5),
            }
        }
        if mode != Mode::External {
            if let Some(f) = spec {
                if let (Some(r), syn::ReturnType::Type(_, ty)) = (&f.ret, &sig.output) {
                    let t = ty.span().byte_range();
                    self.ins(t.start, format!("({r}: "), 0);
                    self.ins(t.end, ")", 0);
                }
                if !f.contract.trim().is_empty() {
                    self.ins(body.start, format!("\n{}\n", f.contract.trim_end()), 0);
                }
            }
        }
        self.ins(whole.end, format!(" /*@E {key}*/"), 0);
        let src_text: String = self.toks_in(&whole).iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join(" ");
        self.reports.push(FnReport {
            key,
            mode: mode_name,
            props: spec.map(|f| f.props.clone()).unwrap_or_default(),
            why: spec.map(|f| f.why.clone()).unwrap_or_default(),
            lost,
            rewrites,
            spec_loops: spec.map(|f| f.loops.len()).unwrap_or(0),
            src_line: self.line_of(sig_start),
            src_hash: fnv(&src_text),
        });
        let _ = nested_in;
    }

    #[allow(clippy::too_many_arguments)]
    fn weave_body(&mut self, f: &FnSpec, _key: &str, _sig: &syn::Signature, block: &syn::Block, col: &Collect, whole: &Range<usize>, lost: &mut Vec<String>, rewrites: &mut Vec<String>) {
        let body = block.span().byte_range();
        let in_nested = |r: &Range<usize>| col.nested.iter().any(|n| n.1.start <= r.start && r.end <= n.1.end);
        let toks: Vec<Tok> = self.toks_in(whole).into_iter().filter(|t| !in_nested(&t.1)).collect();
        let mut replaced: Vec<Range<usize>> = vec![];
        // token rewrites
        for (a, b, all) in f.replaces.iter().chain(self.spec.replaces.iter()) {
            let global = self.spec.replaces.iter().any(|x| &x.0 == a);
            match pattern(a) {
                Ok(p) => {
                    let occ = occurrences(&toks, &p);
                    if occ.is_empty() && !global {
                        lost.push(format!("rewrite pattern `{a}` not found"));
                    }
                    for (n, (i, j)) in occ.into_iter().enumerate() {
                        if n > 0 && !all && !global {
                            break;
                        }
                        let r = toks[i].1.start..toks[j].1.end;
                        self.rep(r.clone(), b.clone());
                        replaced.push(r);
                        rewrites.push(format!("`{a}` => `{b}`"));
                    }
                }
                Err(e) => lost.push(e),
            }
        }
        for (r, b, x) in &col.for_derefs {
            if !in_nested(r) {
                self.rep(r.clone(), x.clone());
                self.ins(b + 1, format!(" let {x} = *{x};"), -30);
                rewrites.push(format!("for &{x} in .. => for {x} in .. {{ let {x} = *{x}; .. }}"));
            }
        }
        for (r, b, x) in &col.arm_derefs {
            if !in_nested(r) {
                self.rep(r.clone(), x.clone());
                self.ins(b.start, format!("{{ let {x} = *{x}; "), -40);
                self.ins(b.end, " }", 40);
                rewrites.push(format!("match arm P(&{x}) => e becomes P({x}) => {{ let {x} = *{x}; e }}"));
            }
        }
        // adaptors unfolded into loops
        for u in &f.unfolds {
            let cl: Vec<_> = col.closures.iter().filter(|c| !in_nested(&c.0)).collect();
            let ad = match cl.get(u.closure).and_then(|c| col.adaptors.iter().find(|a| a.closure == c.0)) {
                None => {
                    lost.push(format!("closure {} is not the argument of a known adaptor", u.closure));
                    continue;
                }
                Some(a) => a,
            };
            let it = u.iter.as_ref().map(|i| format!("{i}: ")).unwrap_or_default();
            let (inv, start, end) = (u.inv.trim_end(), u.start.trim_end(), u.end.trim_end());
            let item = self.src[ad.params.last().unwrap().clone()].to_string();
            // `&x` patterns: the verifier has no reference patterns
            let (pat, deref) = match item.strip_prefix('&') {
                Some(x) => (x.trim().to_string(), format!("let {0} = *{0}; ", x.trim())),
                None => (item, String::new()),
            };
            let text_form = |n: &str| match n {
                "fold" => "R.fold(a, |x, p| e) => { let mut x = a; for p in R { x = e; } x }",
                "collect" => "R.map(|p| e).collect() => { let mut v = Vec::new(); for p in R { v.push(e); } v }",
                "all" => "R.all(|p| e) => the loop over R.next() that stops at the first false",
                _ => "R.any(|p| e) => { let mut b = false; for p in R { b = b || e; } b }",
            };
            rewrites.push(text_form(&ad.name).into());
            if let Some((x, fp, fb)) = &ad.filter {
                let xs = self.src[x.clone()].to_string();
                let b1 = pair_bindings(&self.src[fp.clone()], &xs, "vi");
                let b2 = pair_bindings(&self.src[ad.params[0].clone()], &xs, "vi");
                let (b1, b2) = match (b1, b2) {
                    (Some(a), Some(b)) => (a, b),
                    _ => {
                        lost.push(format!("closure {}: parameters of another form", u.closure));
                        continue;
                    }
                };
                rewrites.push("x.iter().enumerate().filter(|p| f).map(|q| e).collect() => the loop over the indices that pushes e where f holds".into());
                let ty = u.ty.as_ref().map(|t| format!(": Vec<{t}>")).unwrap_or_default();
                self.rep(ad.whole.start..fb.start, format!("{{ let mut vout{ty} = Vec::new(); for vi in {it}0..{xs}.len()\n{inv}\n{{ {b1}\n{start}\nlet vkeep = "));
                self.rep(fb.end..ad.body.start, format!("; if vkeep {{ {b2} let vitem = "));
                self.rep(ad.body.end..ad.whole.end, format!("; vout.push(vitem); }}\n{end}\n}} vout }}"));
                replaced.push(ad.whole.clone());
                continue;
            }
            match ad.name.as_str() {
                "fold" => {
                    let acc = self.src[ad.params[0].clone()].to_string();
                    let acc = acc.trim_start_matches("mut ").to_string();
                    // `R.fold(A, |x, p| E)`: R stays in front, so A moves by text
                    let init = self.src[ad.init.clone().unwrap()].to_string();
                    self.ins(ad.whole.start, format!("{{ let mut {acc} = {init}; for {pat} in {it}"), 20);
                    self.rep(ad.recv.end..ad.body.start, format!("\n{inv}\n{{ {deref}\n{start}\n{acc} = "));
                    self.rep(ad.body.end..ad.whole.end, format!(";\n{end}\n}} {acc} }}"));
                }
                "collect" => {
                    self.ins(ad.whole.start, format!("{{ let mut vout{} = Vec::new(); for {pat} in {it}", u.ty.as_ref().map(|t| format!(": Vec<{t}>")).unwrap_or_default()), 20);
                    self.rep(ad.recv.end..ad.body.start, format!("\n{inv}\n{{ {deref}\n{start}\nlet vitem = "));
                    self.rep(ad.body.end..ad.whole.end, format!("; vout.push(vitem);\n{end}\n}} vout }}"));
                }
                "any" => {
                    self.ins(ad.whole.start, format!("{{ let mut vany = false; for {pat} in {it}"), 20);
                    self.rep(ad.recv.end..ad.body.start, format!("\n{inv}\n{{ {deref}\n{start}\nvany = vany || ("));
                    self.rep(ad.body.end..ad.whole.end, format!(");\n{end}\n}} vany }}"));
                }
                _ => {
                    self.ins(ad.whole.start, "{ let mut vit = ", 20);
                    self.rep(
                        ad.recv.end..ad.body.start,
                        format!("; let mut vall = true;\n{}\nloop\n{inv}\n{{\n{}\nmatch vit.next() {{ None => {{\n{}\nbreak; }} Some({pat}) => {{ {deref}\n{start}\nif !(", u.before.trim_end(), u.top.trim_end(), u.none.trim_end()),
                    );
                    self.rep(ad.body.end..ad.whole.end, format!(") {{ vall = false; break; }}\n{end}\n}} }} }} vall }}"));
                }
            }
            replaced.push(ad.whole.clone());
        }
        // iter().all / iter().any over a list
        for (r, re, fs, name) in &col.quantified {
            if in_nested(r) || replaced.iter().any(|x| x.start < r.end && r.start < x.end) {
                continue;
            }
            self.ins(r.start, format!("crate::prelude::v{name}(&"), 20);
            self.rep(*re..*fs, ", ");
            rewrites.push(format!("x.iter().{name}(f) => v{name}(&x, f), the same loop as a function"));
        }
        // assertion macros become obligations
        for (name, r, args) in &col.macros {
            if in_nested(r) || replaced.iter().any(|x| x.start <= r.start && r.end <= x.end) {
                continue;
            }
            let mut split: Vec<usize> = vec![];
            let mut depth = 0i32;
            for (i, t) in args.iter().enumerate() {
                match t.0.as_str() {
                    "(" | "[" | "{" => depth += 1,
                    ")" | "]" | "}" => depth -= 1,
                    "," if depth == 0 => split.push(i),
                    _ => {}
                }
            }
            match name.as_str() {
                "debug_assert" | "assert" => {
                    let open = args.first().map(|t| t.1.start).unwrap_or(r.end);
                    self.rep(r.start..open, "crate::prelude::vassert(");
                    if let Some(&c) = split.first() {
                        self.rep(args[c].1.start..r.end - 1, "");
                    }
                    rewrites.push(format!("{name}! => proof obligation"));
                }
                "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                    let open = args.first().map(|t| t.1.start).unwrap_or(r.end);
                    self.rep(r.start..open, "crate::prelude::vassert((");
                    if let Some(&c) = split.first() {
                        self.rep(args[c].1.clone(), if name.ends_with("eq") { ") == (" } else { ") != (" });
                        if split.len() > 1 {
                            self.rep(args[split[1]].1.start..r.end - 1, "");
                        }
                    }
                    self.ins(r.end - 1, ")", 50);
                    rewrites.push(format!("{name}! => proof obligation"));
                }
                "panic" | "unreachable" => {
                    if let (Some(c), "panic") = (&f.panics, name.as_str()) {
                        self.rep(r.clone(), format!("{{ let ghost vpanic_case = {c}; crate::prelude::vdocumented_panic(Ghost(vpanic_case)) }}"));
                        rewrites.push(format!("panic! => obligation that the documented case `{c}` holds, then diverges"));
                    } else {
                        self.rep(r.clone(), "crate::prelude::vpanic()");
                        rewrites.push(format!("{name}! => unreachability obligation"));
                    }
                }
                "format" | "write" => {
                    // arguments as source text
                    let mut parts: Vec<String> = vec![];
                    let mut from = 0usize;
                    for k in split.iter().copied().chain(std::iter::once(args.len())) {
                        if from < k {
                            parts.push(self.src[args[from].1.start..args[k - 1].1.end].to_string());
                        }
                        from = k + 1;
                    }
                    let target = if name == "write" && !parts.is_empty() { Some(parts.remove(0)) } else { None };
                    match format_pieces(&parts) {
                        Some(e) => {
                            let e = match target {
                                Some(t) => format!("crate::prelude::vwrite({t}, {e})"),
                                None => e,
                            };
                            self.rep(r.clone(), e);
                            rewrites.push(format!("{name}! => concatenation of its formatted pieces"));
                        }
                        None => lost.push(format!("{name}! with an unsupported format string")),
                    }
                }
                _ => {}
            }
        }
        let loops: Vec<_> = col.loops.iter().filter(|l| !in_nested(&l.0)).collect();
        for l in &f.loops {
            match loops.get(l.index) {
                None => lost.push(format!("loop {} not found", l.index)),
                Some((_, b, fo)) => {
                    if fo.is_some() && l.text.contains("decreases") {
                        // the invariant speaks about the state of a `while`
                        lost.push(format!("loop {} is now a for loop", l.index));
                        continue;
                    }
                    if let Some(name) = &l.iter {
                        match fo {
                            Some((pos, _)) => self.ins(*pos, format!("{name}: "), 0),
                            None => {
                                lost.push(format!("loop {} is not a for loop", l.index));
                                continue;
                            }
                        }
                    }
                    self.ins(b.start, format!("\n{}\n", l.text.trim_end()), 0);
                }
            }
        }
        if !f.loops.is_empty() && loops.len() != f.loops.len() && !f.attrs.iter().any(|a| a.contains("loops-ok")) {
            lost.push(format!("{} loops in the source, {} in the specification", loops.len(), f.loops.len()));
        }
        for (w, text) in &f.inserts {
            let text = text.trim_end();
            match w {
                Where::Start => self.ins(body.start + 1, format!("\n{text}\n"), 0),
                Where::End if matches!(_sig.output, syn::ReturnType::Default) => {
                    let semi = if matches!(block.stmts.last(), Some(syn::Stmt::Expr(_, None))) { ";" } else { "" };
                    self.ins(body.end - 1, format!("{semi}\n{text}\n"), 0)
                }
                Where::End => match block.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => self.ins(e.span().byte_range().start, format!("\n{text}\n"), 0),
                    _ => self.ins(body.end - 1, format!("\n{text}\n"), 0),
                },
                Where::Tail => {
                    // the same at every other place where the function returns
                    let name = f.ret.clone().unwrap_or_else(|| "r".into());
                    let plain = !f.attrs.iter().any(|a| a.contains("tail-only"));
                    for (whole, value) in col.returns.iter().filter(|x| plain && !in_nested(&x.0)) {
                        if std::env::var("WEAVER_RETURNS").is_ok() {
                            eprintln!("return in {}", f.key);
                        }
                        self.ins(whole.start, "{ ", 20);
                        self.rep(whole.start..value.start, format!("let {name} = "));
                        self.ins(value.end, format!(";\n{text}\nreturn {name}; }}"), -20);
                        rewrites.push("value of `return` bound to a name".into());
                    }
                    match block.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => {
                        let r = e.span().byte_range();
                        let name = f.ret.clone().unwrap_or_else(|| "r".into());
                        self.ins(r.start, format!("let {name} = "), 10);
                        self.ins(r.end, format!(";\n{text}\n{name}"), -10);
                        rewrites.push("tail expression bound to a name".into());
                    }
                    Some(syn::Stmt::Expr(syn::Expr::Return(_), Some(_))) => (),
                    _ => lost.push("no tail expression".into()),
                    }
                }
                Where::LoopStart(k) | Where::LoopEnd(k) | Where::LoopBefore(k) | Where::LoopAfter(k) => match loops.get(*k) {
                    None => lost.push(format!("loop {k} not found")),
                    Some((wh, b, _)) => match w {
                        Where::LoopStart(_) => self.ins(b.start + 1, format!("\n{text}\n"), 0),
                        Where::LoopEnd(_) => {
                            let last = toks.iter().filter(|t| t.1.start > b.start && t.1.end < b.end).last().map(|t| t.0.as_str());
                            let semi = if matches!(last, None | Some(";")) { "" } else { ";" };
                            self.ins(b.end - 1, format!("{semi}\n{text}\n"), 0)
                        }
                        _ => {
                            // enclosing statement
                            let st = col.stmts.iter().filter(|s| s.start <= wh.start && wh.end <= s.end).min_by_key(|s| s.end - s.start);
                            match st {
                                None => lost.push(format!("statement of loop {k} not found")),
                                Some(s) => {
                                    let pos = if matches!(w, Where::LoopBefore(_)) { s.start } else { s.end };
                                    self.ins(pos, format!("\n{text}\n"), if matches!(w, Where::LoopBefore(_)) { -5 } else { 5 });
                                }
                            }
                        }
                    },
                },
                Where::Before(p, n) | Where::After(p, n) => match pattern(p) {
                    Err(e) => lost.push(e),
                    Ok(pt) => {
                        let occ = occurrences(&toks, &pt);
                        match occ.get(*n) {
                            None => lost.push(format!("anchor `{p}` #{n} not found")),
                            Some((i, j)) => {
                                let (a, b) = (toks[*i].1.start, toks[*j].1.end);
                                let st = col.stmts.iter().filter(|s| s.start <= a && b <= s.end).min_by_key(|s| s.end - s.start);
                                match st {
                                    None => lost.push(format!("statement of `{p}` not found")),
                                    Some(s) => {
                                        let before = matches!(w, Where::Before(..));
                                        let pos = if before { s.start } else { s.end };
                                        self.ins(pos, format!("\n{text}\n"), if before { -5 } else { 5 });
                                    }
                                }
                            }
                        }
                    }
                },
                Where::Closure(k) => {
                    let cl: Vec<_> = col.closures.iter().filter(|c| !in_nested(&c.0)).collect();
                    match cl.get(*k) {
                        None => lost.push(format!("closure {k} not found")),
                        Some((wh, bs, is_block, b, deref)) => {
                            let wrap = !*is_block || !deref.is_empty();
                            self.rep(wh.start..*bs, format!("{text} {}{deref}", if wrap { "{ " } else { "" }));
                            if wrap {
                                self.ins(b.end, " }", -20);
                            }
                            rewrites.push("closure annotated with types and contract".into());
                        }
                    }
                }
            }
        }
    }

    fn do_type(&mut self, name: &str, attrs: &[syn::Attribute], vis: &syn::Visibility, kw: usize) {
        self.vis_fix(vis, kw);
        let head = match vis {
            syn::Visibility::Inherited => kw,
            v => v.span().byte_range().start,
        };
        for (t, a) in &self.spec.type_attrs {
            if t == name {
                self.edits.push((head, head, format!("{a} "), -1));
            }
        }
        for (t, ds) in &self.spec.drop_derives {
            if t == name {
                for a in attrs {
                    if a.path().is_ident("derive") {
                        if let syn::Meta::List(l) = &a.meta {
                            let all: Vec<String> = l.tokens.to_string().split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                            let keep: Vec<String> = all.iter().filter(|x| !ds.contains(x)).cloned().collect();
                            let r = a.span().byte_range();
                            let txt = if keep.is_empty() { String::new() } else { format!("#[derive({})]", keep.join(", ")) };
                            self.rep(r, txt);
                        }
                    }
                }
            }
        }
    }

    fn fields(&mut self, f: &syn::Fields) {
        for x in f.iter() {
            let start = match &x.ident {
                Some(i) => i.span().byte_range().start,
                None => x.ty.span().byte_range().start,
            };
            self.vis_fix(&x.vis, start);
        }
    }

    fn render(&self, r: Range<usize>, skip: &HashSet<usize>) -> String {
        let mut es: Vec<(usize, &(usize, usize, String, i32))> = self.edits.iter().enumerate().filter(|(i, e)| !skip.contains(i) && e.0 >= r.start && e.1 <= r.end).collect();
        // an insertion at the boundary of a replaced range stays outside of it
        es.sort_by_key(|(i, e)| (e.0, if e.0 == e.1 { 0 } else { 1 }, e.3, *i));
        let mut out = String::new();
        let mut pos = r.start;
        for (_, e) in es {
            if e.0 < pos {
                continue; // inside a removed range
            }
            out.push_str(&self.src[pos..e.0]);
            out.push_str(&e.2);
            pos = e.1;
        }
        out.push_str(&self.src[pos..r.end]);
        out
    }
}

fn use_paths(t: &syn::UseTree, pre: &str, out: &mut Vec<String>) {
    match t {
        syn::UseTree::Path(p) => use_paths(&p.tree, &format!("{pre}{}::", p.ident), out),
        syn::UseTree::Name(n) => out.push(format!("{pre}{}", n.ident)),
        syn::UseTree::Rename(n) => out.push(format!("{pre}{} as {}", n.ident, n.rename)),
        syn::UseTree::Glob(_) => out.push(format!("{pre}*")),
        syn::UseTree::Group(g) => {
            for x in &g.items {
                use_paths(x, pre, out);
            }
        }
    }
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string() == "test"))
}

pub fn weave(spec: &ModuleSpec, src: &str, demote: &HashSet<String>, strip: &HashSet<String>) -> Result<Woven, String> {
    let mut owned = src.to_string();
    for (a, b) in &spec.source_replaces {
        owned = owned.replacen(a.as_str(), b, 1);
    }
    let src: &str = &owned;
    let file = syn::parse_file(src).map_err(|e| format!("parse error: {e}"))?;
    let ts: TokenStream = src.parse().map_err(|e| format!("lex error: {e}"))?;
    let mut toks = vec![];
    flatten(ts, &mut toks);
    let mut w = W { spec, src, toks, edits: vec![], reports: vec![], hoisted: vec![], demote, strip, uncontracted: vec![], dropped: vec![], seen: HashSet::new() };
    let first = file.items.first().map(|i| i.span().byte_range().start).unwrap_or(src.len());
    let last = file.items.last().map(|i| i.span().byte_range().end).unwrap_or(src.len());
    let dropped = |k: &str| spec.drops.iter().any(|d| d == k);
    for it in &file.items {
        let r = it.span().byte_range();
        match it {
            syn::Item::Use(u) => {
                let t = quote::quote!(#u).to_string().replace(' ', "");
                if spec.drops.iter().any(|d| d.starts_with("use ") && t.contains(&d[4..].replace(' ', ""))) {
                    w.drop_item(r, format!("use {t}"));
                } else {
                    // hash tables are taken from the prelude
                    let mut paths = vec![];
                    use_paths(&u.tree, "", &mut paths);
                    let table = |p: &String| p.starts_with("std::collections::") && (p.ends_with("::HashMap") || p.ends_with("::HashSet") || p.ends_with("hash_map::Entry"));
                    if paths.iter().any(table) {
                        let keep: String = paths.iter().filter(|p| !table(p)).map(|p| format!("use {}; ", p.replace("::self", ""))).collect();
                        w.rep(r, keep);
                        w.dropped.push(format!("std hash tables in `{t}` (stand-ins of the prelude)"));
                    }
                }
            }
            syn::Item::Mod(m) => {
                if is_cfg_test(&m.attrs) || m.ident == "test" || m.ident == "tests" {
                    w.rep(r, "");
                } else {
                    w.drop_item(r, format!("mod {}", m.ident));
                }
            }
            syn::Item::Macro(m) => {
                let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                w.drop_item(r, format!("macro {n}!"));
            }
            syn::Item::Struct(s) => {
                let name = s.ident.to_string();
                if dropped(&format!("struct {name}")) || is_cfg_test(&s.attrs) {
                    w.drop_item(r, format!("struct {name}"));
                    continue;
                }
                if spec.ext_types.contains(&name) {
                    let pos = s.struct_token.span.byte_range().start;
                    w.edits.push((pos, pos, "#[verifier::external] ".into(), -1));
                    w.vis_fix(&s.vis, pos);
                    continue;
                }
                w.do_type(&name, &s.attrs, &s.vis, s.struct_token.span.byte_range().start);
                if !w.spec.privates.contains(&s.ident.to_string()) {
                    w.fields(&s.fields);
                }
            }
            syn::Item::Enum(s) => {
                let name = s.ident.to_string();
                if dropped(&format!("enum {name}")) {
                    w.drop_item(r, format!("enum {name}"));
                    continue;
                }
                w.do_type(&name, &s.attrs, &s.vis, s.enum_token.span.byte_range().start);
            }
            syn::Item::Type(s) => w.vis_fix(&s.vis, s.type_token.span.byte_range().start),
            syn::Item::Const(s) => w.vis_fix(&s.vis, s.const_token.span.byte_range().start),
            syn::Item::Fn(f) => {
                if is_cfg_test(&f.attrs) {
                    w.rep(r, "");
                    continue;
                }
                w.do_fn(f.sig.ident.to_string(), &f.attrs, Some(&f.vis), &f.sig, &f.block, r, false, None);
            }
            syn::Item::Impl(i) => {
                let ty = last_ident(&i.self_ty);
                let (prefix, tr) = match &i.trait_ {
                    None => (ty.clone(), None),
                    Some((_, p, _)) => {
                        let seg = p.segments.last().unwrap();
                        let t = quote::quote!(#seg).to_string().replace(' ', "");
                        (format!("{ty} as {t}"), Some(t))
                    }
                };
                if dropped(&format!("impl {prefix}")) {
                    w.drop_item(r, format!("impl {prefix}"));
                    continue;
                }
                let has_spec = i.items.iter().any(|x| match x {
                    syn::ImplItem::Fn(f) => {
                        let k = format!("{prefix}::{}", f.sig.ident);
                        spec.fns.iter().any(|s| s.key == k && s.mode != Mode::External && s.mode != Mode::Drop && !strip.contains(&k))
                    }
                    _ => false,
                });
                let mut tr = tr;
                if spec.inherents.contains(&prefix) {
                    if let Some((bang, p, f)) = &i.trait_ {
                        let a = bang.map(|b| b.span.byte_range().start).unwrap_or(p.span().byte_range().start);
                        let b = f.span.byte_range().end;
                        w.rep(a..b, "");
                        w.dropped.push(format!("header of impl {prefix} (methods verified as inherent ones)"));
                        for x in &i.items {
                            if let syn::ImplItem::Type(t) = x {
                                let r = t.span().byte_range();
                                w.rep(r, "");
                                let text = src[t.ty.span().byte_range()].to_string();
                                let tk = w.toks_in(&i.span().byte_range());
                                let pat = vec!["Self".to_string(), ":".into(), ":".into(), t.ident.to_string()];
                                for (m, n) in occurrences(&tk, &pat) {
                                    w.rep(tk[m].1.start..tk[n].1.end, text.clone());
                                }
                            }
                        }
                        tr = None;
                    }
                }
                if tr.is_some() && !has_spec && !spec.keep_impls.contains(&prefix) {
                    let t = tr.unwrap();
                    let name = t.split('<').next().unwrap_or("").to_string();
                    for x in &i.items {
                        if let syn::ImplItem::Fn(f) = x {
                            w.seen.insert(format!("{prefix}::{}", f.sig.ident));
                            if spec.fns.iter().any(|s| s.key == format!("{prefix}::{}", f.sig.ident)) {
                                w.uncontracted.push(format!("{prefix}::{}", f.sig.ident));
                            }
                        }
                    }
                    let _ = &name;
                    w.ins(i.impl_token.span.byte_range().start, "#[verifier::external] ", 0);
                    if !matches!(name.as_str(), "Display" | "Debug" | "Error") {
                        w.uncontracted.push(format!("impl {prefix}"));
                    }
                    continue;
                }
                for x in &i.items {
                    match x {
                        syn::ImplItem::Fn(f) => {
                            let k = format!("{prefix}::{}", f.sig.ident);
                            w.do_fn(k, &f.attrs, if tr.is_some() { None } else { Some(&f.vis) }, &f.sig, &f.block, f.span().byte_range(), tr.is_some(), None)
                        }
                        syn::ImplItem::Const(c) if tr.is_none() => w.vis_fix(&c.vis, c.const_token.span.byte_range().start),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    // render
    let skip_hoists: HashSet<usize> = w.hoisted.iter().map(|h| h.1).collect();
    let in_hoisted: HashSet<usize> = w.hoisted.iter().flat_map(|h| h.2.clone()).collect();
    let mut main = w.render(first..last, &in_hoisted);
    for (a, b) in &spec.post_replaces {
        main = main.replacen(a.as_str(), b, 1);
    }
    let mut hoisted = String::new();
    for (r, _, _) in &w.hoisted {
        hoisted.push_str(&w.render(r.clone(), &skip_hoists));
        hoisted.push('\n');
    }
    let mut text = String::new();
    text.push_str("#![verifier::allow(autoderive_clone_without_spec)]\n#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, non_snake_case, unused_assignments)]\n");
    text.push_str("use vstd::prelude::*;\nuse crate::prelude::*;\n");
    text.push_str(&spec.uses);
    text.push_str("verus! {\n");
    text.push_str(&main);
    text.push('\n');
    text.push_str(&hoisted);
    text.push_str("\n/*@F (spec items)*/\n");
    text.push_str(&spec.items);
    text.push_str("\n/*@E (spec items)*/\n} // verus!\n");

    let missing: Vec<String> = spec.fns.iter().filter(|f| f.mode != Mode::Drop && !w.seen.contains(&f.key)).map(|f| f.key.clone()).collect();
    let arr = |v: &[String]| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    let mut rep = format!("{{\"name\":{},\"missing\":{},\"uncontracted\":{},\"dropped\":{},\"fns\":[", json_str(&spec.name), arr(&missing), arr(&w.uncontracted), arr(&w.dropped));
    let _unused: HashMap<String, String> = HashMap::new();
    for (i, f) in w.reports.iter().enumerate() {
        if i > 0 {
            rep.push(',');
        }
        rep.push_str(&format!(
            "\n {{\"key\":{},\"mode\":{},\"props\":{},\"why\":{},\"lost\":{},\"rewrites\":{},\"loops\":{},\"line\":{},\"hash\":\"{:016x}\"}}",
            json_str(&f.key),
            json_str(&f.mode),
            arr(&f.props),
            json_str(&f.why),
            arr(&f.lost),
            arr(&f.rewrites),
            f.spec_loops,
            f.src_line,
            f.src_hash
        ));
    }
    rep.push_str("]}");
    Ok(Woven { text, report: rep })
}
