//! C06, C08, C09, C17: string functions
use crate::gen::*;
use crate::rng::Rng;
use crate::{catching, ck, Ctx, R};
use aws_smt_strings::regular_expressions::ReManager;
use aws_smt_strings::smt_regular_expressions as w;
use aws_smt_strings::smt_strings::*;
use std::cmp::Ordering;

fn alpha(r: &mut Rng) -> Vec<u32> {
    match r.below(5) {
        0 => vec![97],
        1 | 2 => vec![97, 98],
        3 => vec![97, 98, 99],
        _ => {
            let mut v: Vec<u32> = (0..3).map(|_| gen_char(r)).collect();
            v.push(0);
            v.push(MAXC);
            v
        }
    }
}

fn v(s: &SmtString) -> Vec<u32> {
    s.as_ref().to_vec()
}

// least position p >= i with w[p..p+|u|] = u
fn occ(u: &[u32], wd: &[u32], i: usize) -> Option<usize> {
    let (n, m) = (u.len(), wd.len());
    (i..=m).find(|&p| p + n <= m && &wd[p..p + n] == u)
}

fn good(ctx: &mut Ctx, s: &SmtString, what: &str) -> R {
    ck!(ctx, s.as_ref().iter().all(|&c| c <= MAXC), "{what} produced characters out of range: {:x?}", s.as_ref());
    ck!(ctx, s.is_good(), "{what}: is_good is false for {:x?}", s.as_ref());
    Ok(())
}

pub fn c06(ctx: &mut Ctx) -> R {
    let al = alpha(&mut ctx.rng);
    let long = ctx.rng.flip(1, 30);
    let m1 = if long { 60 } else { 9 };
    let a = gen_str(&mut ctx.rng, m1, &al);
    // second string: random, or a piece of the first
    let b = if ctx.rng.flip(1, 2) && !a.is_empty() {
        let i = ctx.rng.below(a.len());
        let j = i + ctx.rng.below(a.len() - i + 1);
        let mut b = a[i..j].to_vec();
        if ctx.rng.flip(1, 4) {
            b.push(*ctx.rng.pick(&al));
        }
        b
    } else {
        gen_str(&mut ctx.rng, 4, &al)
    };
    let c = gen_str(&mut ctx.rng, 4, &al);
    ctx.key(&(&a, &b, &c));
    ctx.nontrivial = !a.is_empty();
    ctx.note(|| format!("a={a:x?} b={b:x?} c={c:x?}"));
    let (sa, sb, sc) = (smt(&a), smt(&b), smt(&c));
    let mut ab = a.clone();
    ab.extend(&b);
    let g = str_concat(&sa, &sb);
    ck!(ctx, v(&g) == ab, "str_concat = {:x?}", v(&g));
    ck!(ctx, str_len(&sa) as usize == a.len(), "str_len");
    ck!(ctx, sa.len() == a.len() && sa.is_empty() == a.is_empty(), "len/is_empty");
    let n = a.len() as i64;
    let mut ints: Vec<i32> = vec![i32::MIN, i32::MIN + 1, -2, -1, 0, 1, 2, i32::MAX, i32::MAX - 1, 65536];
    for d in -2..=2 {
        ints.push((n + d) as i32);
        ints.push((b.len() as i64 + d) as i32);
    }
    ints.push(ctx.rng.inr(0, n as u64 + 1) as i32);
    ints.sort();
    ints.dedup();
    for &i in &ints {
        let want: Vec<u32> = if i >= 0 && (i as i64) < n { vec![a[i as usize]] } else { vec![] };
        let g = str_at(&sa, i);
        ck!(ctx, v(&g) == want, "str_at({i}) = {:x?} want {want:x?}", v(&g));
        for &k in &ints {
            let want: Vec<u32> = if i < 0 || i as i64 >= n || k <= 0 {
                vec![]
            } else {
                let e = (i as i64 + k as i64).min(n);
                a[i as usize..e as usize].to_vec()
            };
            let g = str_substr(&sa, i, k);
            ck!(ctx, v(&g) == want, "str_substr({i},{k}) = {:x?} want {want:x?}", v(&g));
        }
        for (x, sx, y, sy) in [(&a, &sa, &b, &sb), (&a, &sa, &c, &sc), (&b, &sb, &a, &sa)] {
            let m = x.len() as i64;
            let want = if i < 0 || i as i64 > m {
                -1
            } else {
                occ(y, x, i as usize).map_or(-1, |p| p as i32)
            };
            let g = str_indexof(sx, sy, i);
            ck!(ctx, g == want, "str_indexof({x:x?}, {y:x?}, {i}) = {g}, want {want}");
        }
        let g = str_indexof(&sa, &EMPTY, i);
        let want = if i >= 0 && i as i64 <= n { i } else { -1 };
        ck!(ctx, g == want, "str_indexof(a, empty, {i}) = {g}, want {want}");
    }
    for (x, sx, y, sy) in [(&a, &sa, &b, &sb), (&b, &sb, &a, &sa), (&a, &sa, &a, &sa), (&c, &sc, &a, &sa)] {
        ck!(ctx, str_prefixof(sx, sy) == y.starts_with(x), "str_prefixof({x:x?},{y:x?})");
        ck!(ctx, str_suffixof(sx, sy) == y.ends_with(x), "str_suffixof({x:x?},{y:x?})");
        let o = occ(y, x, 0);
        ck!(ctx, str_contains(sx, sy) == o.is_some(), "str_contains({x:x?},{y:x?})");
    }
    for (p, sp, r, sr) in [(&b, &sb, &c, &sc), (&c, &sc, &b, &sb), (&b, &sb, &b, &sb), (&vec![], &EMPTY, &c, &sc)] {
        let want = match occ(p, &a, 0) {
            None => a.clone(),
            Some(i) => {
                let mut x = a[..i].to_vec();
                x.extend(r);
                x.extend(&a[i + p.len()..]);
                x
            }
        };
        let g = str_replace(&sa, sp, sr);
        ck!(ctx, v(&g) == want, "str_replace({a:x?},{p:x?},{r:x?}) = {:x?} want {want:x?}", v(&g));
        let want = if p.is_empty() {
            a.clone()
        } else {
            let mut x = vec![];
            let mut i = 0;
            while i < a.len() {
                if a[i..].starts_with(p) {
                    x.extend(r);
                    i += p.len();
                } else {
                    x.push(a[i]);
                    i += 1;
                }
            }
            x
        };
        let g = str_replace_all(&sa, sp, sr);
        ck!(ctx, v(&g) == want, "str_replace_all({a:x?},{p:x?},{r:x?}) = {:x?} want {want:x?}", v(&g));
    }
    Ok(())
}

// SMT-LIB escapes, by direct matching at each position
fn parse_spec(a: &[char]) -> Vec<u32> {
    let hexv = |c: char| -> Option<u32> {
        match c {
            '0'..='9' => Some(c as u32 - 48),
            'a'..='f' => Some(c as u32 - 97 + 10),
            'A'..='F' => Some(c as u32 - 65 + 10),
            _ => None,
        }
    };
    let mut out = vec![];
    let mut i = 0;
    'outer: while i < a.len() {
        if a[i] == '\\' && i + 1 < a.len() && a[i + 1] == 'u' {
            // four digits
            if i + 6 <= a.len() && a[i + 2..i + 6].iter().all(|&c| hexv(c).is_some()) {
                let x = a[i + 2..i + 6].iter().fold(0, |x, &c| x * 16 + hexv(c).unwrap());
                out.push(x);
                i += 6;
                continue 'outer;
            }
            if i + 2 < a.len() && a[i + 2] == '{' {
                for d in 1..=5 {
                    if i + 3 + d < a.len()
                        && a[i + 3 + d] == '}'
                        && a[i + 3..i + 3 + d].iter().all(|&c| hexv(c).is_some())
                    {
                        let x = a[i + 3..i + 3 + d].iter().fold(0, |x, &c| x * 16 + hexv(c).unwrap());
                        if x <= MAXC {
                            out.push(x);
                            i += 4 + d;
                            continue 'outer;
                        }
                    }
                }
            }
        }
        out.push(a[i] as u32);
        i += 1;
    }
    out
}

const LIT: &[char] = &['\\', '\\', '\\', 'u', 'u', 'u', '{', '{', '}', '}', '0', '1', '2', '3', '9', 'a', 'f', 'A', 'F', 'g', 'G', 'x', '"', ' ', '/'];

/// pieces of literals: escapes, near-escapes, other characters
fn lit_text(rng: &mut Rng) -> Vec<char> {
        let mut v: Vec<char> = vec![];
        for _ in 0..rng.below(5) + 1 {
            match rng.below(6) {
                0 => {
                    // near-valid escape
                    v.extend(['\\', 'u']);
                    let brace = rng.flip(1, 2);
                    if brace {
                        v.push('{');
                    }
                    let n = rng.below(8);
                    for _ in 0..n {
                        v.push(*rng.pick(&['0', '1', '2', '3', '7', '9', 'a', 'F', 'f', 'A', 'c', 'D']));
                    }
                    if rng.flip(3, 4) && brace {
                        v.push('}');
                    }
                }
                1 => {
                    let x = match rng.below(4) {
                        0 => 0x2fffe + rng.inr(0, 3) as u32,
                        1 => gen_char(rng),
                        _ => rng.inr(0, 0xfffff) as u32,
                    };
                    v.extend(format!("\\u{{{x:x}}}").chars());
                }
                2 => {
                    let x = rng.inr(0, 0xffff) as u32;
                    v.extend(format!("\\u{x:04X}").chars());
                }
                3 => {
                    if let Some(c) = char::from_u32(gen_char(rng)) {
                        v.push(c);
                    }
                }
                _ => {
                    for _ in 0..rng.below(8) {
                        v.push(*rng.pick(LIT));
                    }
                }
            }
        }
        v
}

pub fn c08(ctx: &mut Ctx) -> R {
    // parsing: all texts up to length 3 over a small set first, then random
    let small: &[char] = &['\\', 'u', '{', '}', '0', '2', 'F', 'g'];
    let t: Vec<char> = if ctx.i < 585 {
        let mut k = ctx.i;
        let mut n = 0;
        let mut sz = 1;
        while k >= sz {
            k -= sz;
            sz *= 8;
            n += 1;
        }
        (0..n)
            .map(|_| {
                let c = small[(k % 8) as usize];
                k /= 8;
                c
            })
            .collect()
    } else {
        lit_text(&mut ctx.rng)
    };
    let text: String = t.iter().collect();
    ctx.key(&text);
    ctx.nontrivial = text.contains("\\u");
    ctx.note(|| format!("text {text:?}"));
    let g = parse_smt_literal(&text);
    let want = parse_spec(&t);
    ck!(ctx, v(&g) == want, "parse_smt_literal({text:?}) = {:x?}, want {want:x?}", v(&g));
    // printing
    let s: Vec<u32> = match ctx.rng.below(4) {
        0 => want.clone(),
        1 => t.iter().map(|&c| c as u32).collect(), // spells the text itself
        2 => (0..ctx.rng.below(6)).map(|_| gen_char(&mut ctx.rng)).collect(),
        _ => vec![(ctx.i % (MAXC as u64 + 1)) as u32, gen_char(&mut ctx.rng)],
    };
    ctx.note(|| format!("string {s:x?}"));
    let d = smt(&s).to_string();
    ck!(ctx, d.chars().all(|c| (c as u32) >= 32 && (c as u32) < 127), "Display of {s:x?} is not printable ASCII: {d:?}");
    ck!(ctx, d.len() >= 2 && d.starts_with('"') && d.ends_with('"'), "Display of {s:x?} is not quoted: {d}");
    let body: Vec<char> = d[1..d.len() - 1].chars().collect();
    let mut un = String::new();
    let mut i = 0;
    while i < body.len() {
        if body[i] == '"' {
            ck!(ctx, i + 1 < body.len() && body[i + 1] == '"', "Display of {s:x?}: double quote not doubled: {d}");
            i += 1;
        }
        un.push(body[i]);
        i += 1;
    }
    let back = parse_smt_literal(&un);
    ck!(ctx, v(&back) == s, "Display of {s:x?} is {d}, which reads back as {:x?}", v(&back));
    let want = parse_spec(&un.chars().collect::<Vec<_>>());
    ck!(ctx, want == s, "Display of {s:x?} is {d}, which denotes {want:x?}");
    // single characters
    for &c in &s {
        for (f, name) in [(char_to_smt as fn(u32) -> String, "char_to_smt"), (smt_char_as_string, "smt_char_as_string")] {
            let x = f(c);
            let un = x.replace("\"\"", "\"");
            ck!(ctx, x.bytes().all(|b| (32..127).contains(&b)), "{name}({c:x}) = {x:?}");
            ck!(ctx, parse_spec(&un.chars().collect::<Vec<_>>()) == [c], "{name}({c:x}) = {x:?} does not denote the character");
        }
    }
    Ok(())
}

pub fn c09(ctx: &mut Ctx) -> R {
    let al = alpha(&mut ctx.rng);
    let a = gen_str(&mut ctx.rng, 6, &al);
    let b = match ctx.rng.below(4) {
        0 => {
            let k = ctx.rng.below(a.len() + 1);
            let mut b = a[..k].to_vec();
            b.extend(gen_str(&mut ctx.rng, 2, &al));
            b
        }
        1 => {
            let mut b = a.clone();
            if !b.is_empty() {
                let i = ctx.rng.below(b.len());
                b[i] = gen_char(&mut ctx.rng);
            }
            b
        }
        _ => gen_str(&mut ctx.rng, 6, &al),
    };
    ctx.note(|| format!("a={a:x?} b={b:x?}"));
    let (sa, sb) = (smt(&a), smt(&b));
    // lexicographic order, written out
    let mut ord = Ordering::Equal;
    for i in 0..a.len().max(b.len()) {
        ord = match (a.get(i), b.get(i)) {
            (None, _) => Ordering::Less,
            (_, None) => Ordering::Greater,
            (Some(x), Some(y)) => x.cmp(y),
        };
        if ord != Ordering::Equal {
            break;
        }
    }
    ck!(ctx, str_lt(&sa, &sb) == (ord == Ordering::Less), "str_lt({a:x?},{b:x?}) = {}", str_lt(&sa, &sb));
    ck!(ctx, str_le(&sa, &sb) == (ord != Ordering::Greater), "str_le({a:x?},{b:x?}) = {}", str_le(&sa, &sb));
    ck!(ctx, str_lt(&sb, &sa) == (ord == Ordering::Greater), "str_lt({b:x?},{a:x?})");
    ck!(ctx, str_le(&sa, &sa) && !str_lt(&sa, &sa), "reflexivity on {a:x?}");
    // str_to_int
    let digits: Vec<u32> = match ctx.rng.below(5) {
        0 => {
            let n = ctx.rng.below(14);
            (0..n).map(|_| 48 + ctx.rng.below(10) as u32).collect()
        }
        1 => {
            // around i32::MAX, u32 and i64 wrap points
            let base = *ctx.rng.pick(&[i32::MAX as i128, u32::MAX as i128, i64::MAX as i128, u64::MAX as i128, 214748364, 1 << 31, 10_000_000_000, 3_000_000_000, 4_294_967_296 + 5]);
            let x = base + ctx.rng.inr(0, 20) as i128 - 10;
            let mut s: Vec<u32> = x.to_string().bytes().map(|b| b as u32).collect();
            if ctx.rng.flip(1, 3) {
                let z = ctx.rng.below(12);
                let mut t = vec![48; z];
                t.extend(s);
                s = t;
            }
            if ctx.rng.flip(1, 6) {
                s.push(*ctx.rng.pick(&[47, 58, 97, 32, 0x30 + 0x100, 0x660, MAXC]));
            }
            s
        }
        2 => {
            let n = ctx.rng.below(12);
            let mut s: Vec<u32> = (0..n).map(|_| 48 + ctx.rng.below(10) as u32).collect();
            let p = ctx.rng.below(n + 1);
            s.insert(p, *ctx.rng.pick(&[47, 58, 45, 43, 97, 32, 0, 0x130, 0x660, MAXC]));
            s
        }
        3 => (0..9 + ctx.rng.below(3)).map(|_| 48 + ctx.rng.below(10) as u32).collect(),
        _ => a.clone(),
    };
    ctx.key(&(&a, &b, &digits));
    ctx.nontrivial = true;
    ctx.note(|| format!("digits={digits:x?} ({})", cfg!(debug_assertions)));
    let all = !digits.is_empty() && digits.iter().all(|&d| (48..=57).contains(&d));
    let got = catching(|| str_to_int(&smt(&digits)));
    ctx.checks += 1;
    if !all {
        if got != Ok(-1) {
            return Err(format!("str_to_int({digits:x?}) = {got:?}, want -1"));
        }
    } else {
        let val = digits.iter().fold(0u128, |x, &d| x.saturating_mul(10).saturating_add((d - 48) as u128));
        match got {
            Ok(g) if val <= i32::MAX as u128 && g as i128 == val as i128 => {}
            Err(_) if val > i32::MAX as u128 => {}
            g => return Err(format!("str_to_int({:?}) = {g:?}, value {val}", digits.iter().map(|&d| d as u8 as char).collect::<String>())),
        }
    }
    // from_int, codes
    let n = match ctx.rng.below(5) {
        0 => i32::MAX - ctx.rng.below(3) as i32,
        1 => i32::MIN + ctx.rng.below(3) as i32,
        2 => ctx.rng.inr(0, 120) as i32 - 10,
        3 => 10i32.pow(ctx.rng.below(10) as u32) - ctx.rng.below(2) as i32,
        _ => ctx.rng.next() as i32,
    };
    ctx.note(|| format!("n={n}"));
    let s = str_from_int(n);
    let want: Vec<u32> = if n < 0 {
        vec![]
    } else {
        let mut x = n as u64;
        let mut o = vec![];
        loop {
            o.push(48 + (x % 10) as u32);
            x /= 10;
            if x == 0 {
                break;
            }
        }
        o.reverse();
        o
    };
    ck!(ctx, v(&s) == want, "str_from_int({n}) = {:x?}", v(&s));
    if n >= 0 {
        let g = catching(|| str_to_int(&s));
        ck!(ctx, g == Ok(n), "str_to_int(str_from_int({n})) = {g:?}");
    }
    for c in [n, gen_char(&mut ctx.rng) as i32, 0, -1, MAXC as i32, MAXC as i32 + 1, i32::MAX, i32::MIN] {
        let s = str_from_code(c);
        let want: Vec<u32> = if c >= 0 && c <= MAXC as i32 { vec![c as u32] } else { vec![] };
        ck!(ctx, v(&s) == want, "str_from_code({c:x}) = {:x?}", v(&s));
        let g = str_to_code(&s);
        ck!(ctx, g == if want.is_empty() { -1 } else { c }, "str_to_code(str_from_code({c:x})) = {g:x}");
        let dig = want.len() == 1 && (48..=57).contains(&want[0]);
        ck!(ctx, str_is_digit(&s) == dig, "str_is_digit({want:x?})");
    }
    for c in 46..60 {
        ck!(ctx, str_is_digit(&smt(&[c])) == (48..=57).contains(&c), "str_is_digit({c})");
    }
    for x in [&a, &b, &digits] {
        let want = if x.len() == 1 { x[0] as i32 } else { -1 };
        ck!(ctx, str_to_code(&smt(x)) == want, "str_to_code({x:x?})");
        let want = x.len() == 1 && (48..=57).contains(&x[0]);
        ck!(ctx, str_is_digit(&smt(x)) == want, "str_is_digit({x:x?})");
    }
    Ok(())
}

fn any_u32(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => MAXC + 1 + r.inr(0, 3) as u32,
        1 => u32::MAX - r.inr(0, 2) as u32,
        2 => r.next() as u32,
        3 => 0x10FFFF + r.inr(0, 2) as u32,
        _ => gen_char(r),
    }
}

fn any_char(r: &mut Rng) -> char {
    loop {
        let x = match r.below(5) {
            0 => r.inr(0, 0x10FFFF) as u32,
            1 => *r.pick(&[0x2FFFF, 0x30000, 0x30001, 0x10FFFF, 0x10FFFE, 0x40000, 0xFFFF, 0x10000]),
            2 => r.inr(0x2FFF0, 0x30010) as u32,
            3 => *r.pick(LIT) as u32,
            _ => gen_char(r),
        };
        if let Some(c) = char::from_u32(x) {
            return c;
        }
    }
}

fn fix(x: u32) -> u32 {
    if x <= MAXC {
        x
    } else {
        0xFFFD
    }
}

pub fn c17(ctx: &mut Ctx) -> R {
    let n = ctx.rng.below(8);
    let xs: Vec<u32> = (0..n).map(|_| any_u32(&mut ctx.rng)).collect();
    let m = ctx.rng.below(10);
    let mut cs: Vec<char> = (0..m).map(|_| any_char(&mut ctx.rng)).collect();
    if ctx.rng.flip(1, 3) {
        cs = lit_text(&mut ctx.rng);
    }
    if ctx.rng.flip(1, 3) {
        let p = ctx.rng.below(cs.len() + 1);
        let x = any_char(&mut ctx.rng);
        let esc: Vec<char> = match ctx.rng.below(4) {
            0 => format!("\\u{{{:x}}}", any_u32(&mut ctx.rng)),
            1 => format!("\\u{{{x}"),
            2 => format!("\\u00{x}"),
            _ => format!("\\{x}"),
        }
        .chars()
        .collect();
        for (k, c) in esc.into_iter().enumerate() {
            cs.insert(p + k, c);
        }
    }
    let text: String = cs.iter().collect();
    ctx.key(&(&xs, &text));
    ctx.nontrivial = xs.iter().any(|&x| x > MAXC) || cs.iter().any(|&c| c as u32 > MAXC);
    ctx.note(|| format!("ints {xs:x?} text {:x?}", cs.iter().map(|&c| c as u32).collect::<Vec<_>>()));
    let fixed: Vec<u32> = xs.iter().map(|&x| fix(x)).collect();
    let mut made: Vec<(SmtString, &'static str)> = vec![];
    let s = SmtString::from(&xs[..]);
    ck!(ctx, v(&s) == fixed, "From<&[u32]>({xs:x?}) = {:x?}", v(&s));
    made.push((s, "From<&[u32]>"));
    let s = SmtString::from(xs.clone());
    ck!(ctx, v(&s) == fixed, "From<Vec<u32>>({xs:x?}) = {:x?}", v(&s));
    made.push((s, "From<Vec<u32>>"));
    if n >= 3 {
        let arr = [xs[0], xs[1], xs[2]];
        let s = SmtString::from(&arr);
        ck!(ctx, v(&s) == fixed[..3], "From<&[u32;3]>({arr:x?}) = {:x?}", v(&s));
        made.push((s, "From<&[u32;N]>"));
    }
    let x = any_u32(&mut ctx.rng);
    let s = SmtString::from(x);
    ck!(ctx, v(&s) == [fix(x)], "From<u32>({x:x}) = {:x?}", v(&s));
    made.push((s, "From<u32>"));
    let c = any_char(&mut ctx.rng);
    let s = SmtString::from(c);
    ck!(ctx, v(&s) == [fix(c as u32)], "From<char>({:x}) = {:x?}", c as u32, v(&s));
    made.push((s, "From<char>"));
    let want: Vec<u32> = cs.iter().map(|&c| fix(c as u32)).collect();
    let s = SmtString::from(text.as_str());
    ck!(ctx, v(&s) == want, "From<&str>({text:?}) = {:x?}", v(&s));
    made.push((s, "From<&str>"));
    let s = SmtString::from(text.clone());
    ck!(ctx, v(&s) == want, "From<String>({text:?}) = {:x?}", v(&s));
    made.push((s, "From<String>"));
    made.push((parse_smt_literal(&text), "parse_smt_literal"));
    made.push((EMPTY, "EMPTY"));
    // operations on what we have so far
    for _ in 0..6 {
        let (a, b, c) = (
            ctx.rng.pick(&made).0.clone(),
            ctx.rng.pick(&made).0.clone(),
            ctx.rng.pick(&made).0.clone(),
        );
        let i = ctx.rng.inr(0, 12) as i32 - 2;
        let j = ctx.rng.inr(0, 12) as i32 - 2;
        let s = match ctx.rng.below(9) {
            0 => (str_concat(&a, &b), "str_concat"),
            1 => (str_at(&a, i), "str_at"),
            2 => (str_substr(&a, i, j), "str_substr"),
            3 => (str_replace(&a, &str_at(&a, i), &c), "str_replace"),
            4 => (str_replace_all(&a, &str_at(&a, i), &c), "str_replace_all"),
            5 => (str_from_int(ctx.rng.next() as i32), "str_from_int"),
            6 => (str_from_code(any_u32(&mut ctx.rng) as i32), "str_from_code"),
            7 => {
                good(ctx, &a, "operand")?;
                let r = w::str_to_re(&str_at(&a, i));
                (w::str_replace_re(&a, r, &c), "str_replace_re")
            }
            _ => {
                good(ctx, &a, "operand")?;
                let r = w::re_union(w::str_to_re(&str_at(&a, i)), w::str_to_re(&b));
                (w::str_replace_re_all(&a, r, &c), "str_replace_re_all")
            }
        };
        if s.0.len() < 200 {
            made.push(s);
        }
    }
    let mut m = ReManager::new();
    for (s, what) in &made {
        good(ctx, s, what)?;
        // usable everywhere: as a regular expression, and back through a witness
        let e = m.str(s);
        ck!(ctx, m.str_in_re(s, e), "str_in_re(s, str(s)) is false for {:x?}", s.as_ref());
        let g = m.get_string(e);
        match g {
            None => return Err(format!("get_string(str(s)) is None for {:x?}", s.as_ref())),
            Some(g) => {
                good(ctx, &g, "get_string")?;
                ck!(ctx, g == *s, "get_string(str(s)) differs for {:x?}", s.as_ref());
            }
        }
        let _ = s.to_string();
        let _ = s.to_unicode_string();
    }
    let co = m.str(&made[0].0);
    let co = m.complement(co);
    if let Some(g) = m.get_string(co) {
        good(ctx, &g, "get_string")?;
    }
    for x in [0, MAXC, MAXC + 1, u32::MAX, any_u32(&mut ctx.rng)] {
        ck!(ctx, good_char(x) == (x <= MAXC), "good_char({x:x})");
    }
    ck!(ctx, good_string(&xs) == xs.iter().all(|&x| x <= MAXC), "good_string({xs:x?})");
    Ok(())
}
