//! Parser for the .spec files (see /verif/spec/README.md).

#[derive(Debug, Clone, Default)]
pub struct LoopSpec {
    pub index: usize,
    pub iter: Option<String>,
    pub text: String,
}

#[derive(Debug, Clone, Default)]
pub struct Unfold {
    pub closure: usize,
    pub iter: Option<String>,
    pub ty: Option<String>,
    pub inv: String,
    pub before: String,
    pub top: String,
    pub none: String,
    pub start: String,
    pub end: String,
}

#[derive(Debug, Clone)]
pub enum Where {
    Start,
    End,
    LoopStart(usize),
    LoopEnd(usize),
    LoopBefore(usize),
    LoopAfter(usize),
    Before(String, usize),
    After(String, usize),
    Tail,
    Closure(usize),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Mode {
    Verify,
    /// contract assumed, body not verified
    Trusted,
    /// not visible to the verifier at all
    External,
    /// removed from the extracted text
    Drop,
}

#[derive(Debug, Clone)]
pub struct FnSpec {
    pub key: String,
    pub mode: Mode,
    pub props: Vec<String>,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub why: String,
    /// condition under which the documentation announces a panic
    pub panics: Option<String>,
    pub contract: String,
    pub loops: Vec<LoopSpec>,
    pub inserts: Vec<(Where, String)>,
    pub replaces: Vec<(String, String, bool)>,
    /// iterator adaptors with a closure that are unfolded into the loop they stand for
    pub unfolds: Vec<Unfold>,
    pub line: usize,
}

#[derive(Debug, Clone, Default)]
pub struct ModuleSpec {
    pub name: String,
    pub uses: String,
    pub items: String,
    pub fns: Vec<FnSpec>,
    pub drops: Vec<String>,
    pub keep_impls: Vec<String>,
    pub ext_types: Vec<String>,
    /// trait impls whose methods become inherent ones
    pub inherents: Vec<String>,
    pub type_attrs: Vec<(String, String)>,
    /// types whose fields stay private (they carry a type invariant)
    pub privates: Vec<String>,
    pub drop_derives: Vec<(String, Vec<String>)>,
    pub replaces: Vec<(String, String, bool)>,
    /// textual rewrites of items outside functions, applied to the source first
    pub source_replaces: Vec<(String, String)>,
    /// the same, applied to the woven text (for replacements that are not plain Rust)
    pub post_replaces: Vec<(String, String)>,
}

fn quoted(s: &str) -> Result<(String, &str), String> {
    let s = s.trim_start();
    let r = s.strip_prefix('`').ok_or_else(|| format!("expected `...` in {s}"))?;
    let e = r.find('`').ok_or_else(|| format!("unterminated ` in {s}"))?;
    Ok((r[..e].to_string(), &r[e + 1..]))
}

pub fn parse(text: &str) -> Result<ModuleSpec, String> {
    let mut m = ModuleSpec::default();
    enum Cur {
        None,
        Uses,
        Items,
        Contract,
        Loop,
        Insert,
        Unfold(u8),
    }
    let mut cur = Cur::None;
    // a directive whose backquotes are not closed goes on
    let mut lines: Vec<String> = vec![];
    for l in text.lines() {
        match lines.last_mut() {
            Some(p) if p.trim_start().starts_with('@') && p.matches('`').count() % 2 == 1 => {
                p.push('\n');
                p.push_str(l);
            }
            _ => lines.push(l.to_string()),
        }
    }
    for (n, line) in lines.iter().enumerate() {
        let line = line.as_str();
        let ln = n + 1;
        let t = line.trim();
        if t.starts_with("##") {
            continue;
        }
        if let Some(d) = t.strip_prefix('@') {
            let (cmd, rest) = match d.find(char::is_whitespace) {
                Some(k) => (&d[..k], d[k..].trim()),
                None => (d, ""),
            };
            let fail = |e: String| format!("line {ln}: {e}");
            match cmd {
                "module" => m.name = rest.to_string(),
                "uses" => cur = Cur::Uses,
                "items" => cur = Cur::Items,
                "drop" => m.drops.push(rest.to_string()),
                "keep-impl" => m.keep_impls.push(rest.to_string()),
                "inherent" => m.inherents.push(rest.to_string()),
                "private" => m.privates.push(rest.to_string()),
                "external-type" => m.ext_types.push(rest.to_string()),
                "type-attr" => {
                    let k = rest.find(char::is_whitespace).ok_or_else(|| fail("type-attr T attr".into()))?;
                    m.type_attrs.push((rest[..k].to_string(), rest[k..].trim().to_string()));
                }
                "drop-derive" => {
                    let mut it = rest.split_whitespace();
                    let ty = it.next().unwrap_or("").to_string();
                    m.drop_derives.push((ty, it.map(String::from).collect()));
                }
                "fn" => {
                    // key [props=..] [ret=..] [mode=..]
                    let mut key = String::new();
                    let mut f = FnSpec { key: String::new(), mode: Mode::Verify, props: vec![], ret: None, attrs: vec![], why: String::new(),
                        panics: None, contract: String::new(), loops: vec![], inserts: vec![], replaces: vec![], unfolds: vec![], line: ln };
                    for w in rest.split_whitespace() {
                        if let Some(v) = w.strip_prefix("props=") {
                            f.props = v.split(',').map(String::from).collect();
                        } else if let Some(v) = w.strip_prefix("ret=") {
                            f.ret = Some(v.to_string());
                        } else if let Some(v) = w.strip_prefix("mode=") {
                            f.mode = match v {
                                "verify" => Mode::Verify,
                                "trusted" => Mode::Trusted,
                                "external" => Mode::External,
                                "drop" => Mode::Drop,
                                _ => return Err(fail(format!("bad mode {v}"))),
                            };
                        } else {
                            if !key.is_empty() {
                                key.push(' ');
                            }
                            key.push_str(w);
                        }
                    }
                    f.key = key;
                    m.fns.push(f);
                    cur = Cur::Contract;
                }
                "attr" => m.fns.last_mut().ok_or_else(|| fail("no fn".into()))?.attrs.push(rest.to_string()),
                "panics-when" => m.fns.last_mut().ok_or_else(|| fail("no fn".into()))?.panics = Some(rest.to_string()),
                "why" => {
                    let f = m.fns.last_mut().ok_or_else(|| fail("no fn".into()))?;
                    f.why = rest.to_string();
                }
                "loop" => {
                    let f = m.fns.last_mut().ok_or_else(|| fail("no fn".into()))?;
                    let mut l = LoopSpec::default();
                    for w in rest.split_whitespace() {
                        if let Some(v) = w.strip_prefix("iter=") {
                            l.iter = Some(v.to_string())
                        } else {
                            l.index = w.parse().map_err(|_| fail(format!("bad loop index {w}")))?;
                        }
                    }
                    f.loops.push(l);
                    cur = Cur::Loop;
                }
                "unfold" => {
                    let f = m.fns.last_mut().ok_or_else(|| fail("no fn".into()))?;
                    let mut u = Unfold::default();
                    for w in rest.split_whitespace() {
                        if let Some(v) = w.strip_prefix("iter=") {
                            u.iter = Some(v.to_string())
                        } else if let Some(v) = w.strip_prefix("ty=") {
                            u.ty = Some(v.to_string())
                        } else {
                            u.closure = w.parse().map_err(|_| fail(format!("bad closure index {w}")))?;
                        }
                    }
                    f.unfolds.push(u);
                    cur = Cur::Unfold(0);
                }
                "unfold-start" => cur = Cur::Unfold(1),
                "unfold-end" => cur = Cur::Unfold(2),
                "unfold-before" => cur = Cur::Unfold(3),
                "unfold-top" => cur = Cur::Unfold(4),
                "unfold-none" => cur = Cur::Unfold(5),
                "at" => {
                    let f = m.fns.last_mut().ok_or_else(|| fail("no fn".into()))?;
                    let ws: Vec<&str> = rest.split_whitespace().collect();
                    let w = match ws.as_slice() {
                        ["start"] => Where::Start,
                        ["end"] => Where::End,
                        ["tail"] => Where::Tail,
                        ["closure", k] => Where::Closure(k.parse().map_err(|_| fail("index".into()))?),
                        ["loop", k, p] => {
                            let k = k.parse().map_err(|_| fail("index".into()))?;
                            match *p {
                                "start" => Where::LoopStart(k),
                                "end" => Where::LoopEnd(k),
                                "before" => Where::LoopBefore(k),
                                "after" => Where::LoopAfter(k),
                                _ => return Err(fail("bad loop position".into())),
                            }
                        }
                        _ => return Err(fail(format!("bad @at {rest}"))),
                    };
                    f.inserts.push((w, String::new()));
                    cur = Cur::Insert;
                }
                "before" | "after" => {
                    let f = m.fns.last_mut().ok_or_else(|| fail("no fn".into()))?;
                    let (pat, r) = quoted(rest).map_err(|e| fail(e))?;
                    let k = r.trim();
                    let k: usize = if k.is_empty() { 0 } else { k.parse().map_err(|_| fail("index".into()))? };
                    f.inserts.push((if cmd == "before" { Where::Before(pat, k) } else { Where::After(pat, k) }, String::new()));
                    cur = Cur::Insert;
                }
                "replace" | "replace-all" => {
                    let (a, r) = quoted(rest).map_err(|e| fail(e))?;
                    let r = r.trim_start().strip_prefix("=>").ok_or_else(|| fail("expected =>".into()))?;
                    let (b, _) = quoted(r).map_err(|e| fail(e))?;
                    let all = cmd == "replace-all";
                    match m.fns.last_mut() {
                        Some(f) => f.replaces.push((a, b, all)),
                        None => m.replaces.push((a, b, all)),
                    }
                }
                "source-replace" | "post-replace" => {
                    let (a, r) = quoted(rest).map_err(|e| fail(e))?;
                    let r = r.trim_start().strip_prefix("=>").ok_or_else(|| fail("expected =>".into()))?;
                    let (b, _) = quoted(r).map_err(|e| fail(e))?;
                    if cmd == "source-replace" { m.source_replaces.push((a, b)) } else { m.post_replaces.push((a, b)) }
                }
                "end" => cur = Cur::None,
                _ => return Err(fail(format!("unknown directive @{cmd}"))),
            }
            continue;
        }
        let push = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match cur {
            Cur::None => {
                if !t.is_empty() {
                    return Err(format!("line {ln}: stray text: {t}"));
                }
            }
            Cur::Uses => push(&mut m.uses),
            Cur::Items => push(&mut m.items),
            Cur::Contract => push(&mut m.fns.last_mut().unwrap().contract),
            Cur::Loop => push(&mut m.fns.last_mut().unwrap().loops.last_mut().unwrap().text),
            Cur::Unfold(k) => {
                let u = m.fns.last_mut().and_then(|f| f.unfolds.last_mut()).ok_or_else(|| format!("line {ln}: no @unfold"))?;
                push(match k {
                    0 => &mut u.inv,
                    1 => &mut u.start,
                    3 => &mut u.before,
                    4 => &mut u.top,
                    5 => &mut u.none,
                    _ => &mut u.end,
                })
            }
            Cur::Insert => push(&mut m.fns.last_mut().unwrap().inserts.last_mut().unwrap().1),
        }
    }
    if m.name.is_empty() {
        return Err("no @module".into());
    }
    Ok(m)
}
