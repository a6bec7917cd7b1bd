//! Glob patterns against the set of strings they describe.
use vk::globref::*;
use vk::*;

struct Shape {
    alpha: &'static [u8],
    star: bool,
    class: bool,
    alt: bool,
    len: usize,
}
fn one(s: &mut Src, k: &Shape, nested: usize, before: Option<&G>) -> G {
    let lit = |s: &mut Src| k.alpha[s.below(k.alpha.len())];
    match s.below(12) {
        0..=2 if k.star && nested == 0 && !matches!(before, Some(G::Star)) => G::Star,
        3 | 4 => G::Any,
        5 if k.class => {
            let n = s.range(1, 3);
            let rs = (0..n)
                .map(|_| {
                    let (a, b) = (lit(s), lit(s));
                    if s.chance(1, 2) { (a.min(b), a.max(b)) } else { (a, a) }
                })
                .collect::<Vec<_>>();
            G::Class(s.chance(1, 3), rs)
        }
        6 | 7 if k.alt && nested < 4 => G::Alt((0..s.range(1, 3)).map(|_| seq(s, k, nested + 1)).collect()),
        _ => G::Lit(lit(s)),
    }
}
fn seq(s: &mut Src, k: &Shape, nested: usize) -> Vec<G> {
    let n = s.range((nested == 0) as usize, if nested > 0 { 3 } else { k.len });
    let mut v: Vec<G> = vec![];
    for _ in 0..n {
        let g = one(s, k, nested, v.last());
        v.push(g);
    }
    v
}
/// a string: described by the pattern, near it, or any
fn path(s: &mut Src, k: &Shape, p: &[G]) -> Vec<u8> {
    let mut v = vec![];
    if s.chance(3, 4) {
        member(s, k, p, &mut v);
        for _ in 0..s.below(3) {
            match s.below(4) {
                0 => v.truncate(s.below(v.len() + 1)),
                1 => v.push(k.alpha[s.below(k.alpha.len())]),
                2 if !v.is_empty() => {
                    let i = s.below(v.len());
                    v[i] = k.alpha[s.below(k.alpha.len())];
                }
                _ => {}
            }
        }
    } else {
        for _ in 0..s.below(7) {
            v.push(k.alpha[s.below(k.alpha.len())]);
        }
    }
    v
}
fn member(s: &mut Src, k: &Shape, p: &[G], v: &mut Vec<u8>) {
    for g in p {
        match g {
            G::Lit(b) => v.push(*b),
            G::Any => v.push(k.alpha[s.below(k.alpha.len())]),
            G::Star => {
                for _ in 0..s.below(4) {
                    v.push(k.alpha[s.below(k.alpha.len())]);
                }
            }
            G::Class(_, rs) => {
                let r = rs[s.below(rs.len())];
                let b = s.range(r.0 as usize, r.1 as usize) as u8;
                v.push(if b == b'/' { r.0 } else { b });
            }
            G::Alt(xs) => {
                let i = s.below(xs.len());
                member(s, k, &xs[i], v);
            }
        }
    }
}
/// Whether every match of the whole path leaves a brace group for its very end.
fn ends_before_braces(p: &[G], path: &[u8]) -> bool {
    match p.iter().rposition(|g| matches!(g, G::Alt(_))) {
        Some(i) => matches(&p[..i], path, false).0,
        None => false,
    }
}

/// Whether no option of a brace group is empty.
fn full_options(g: &G) -> bool {
    match g {
        G::Alt(a) => a.iter().all(|o| !o.is_empty() && o.iter().all(full_options)),
        _ => true,
    }
}

const SPEC: Shape = Shape { alpha: b"tbp", star: true, class: true, alt: true, len: 5 };
const PLAIN: Shape = Shape { alpha: b"ab.c", star: true, class: true, alt: false, len: 8 };
const ODD: Shape = Shape { alpha: b"a*?[]{}!,\\-^b", star: true, class: true, alt: false, len: 7 };

fn check(k: &'static Shape, s: &mut Src, o: &mut Obs) -> Res {
    let p = seq(s, k, 0);
    let neg = if s.chance(1, 10) { s.range(1, 3) } else { 0 };
    let x = path(s, k, &p);
    let mut t = "!".repeat(neg);
    write(&p, &mut t);
    let x = String::from_utf8(x).unwrap();
    o.show(format!("pattern {t} on {x:?}"));
    let exact = matches(&p, x.as_bytes(), false);
    let longest = matches(&p, x.as_bytes(), true);
    o.nontrivial = !x.is_empty() && p.iter().any(|g| !matches!(g, G::Lit(_)));
    o.label_if(exact.0, "described");
    o.label_if(exact.1 && !exact.0, "only a prefix");
    o.label_if(!exact.1, "neither");
    o.label_if(neg > 0, "negated");
    // a brace group takes its longest alternative (see known findings)
    if exact != longest || dry() {
        o.nontrivial = false;
        return Ok(());
    }
    let want = |m: bool| m != (neg % 2 == 1);
    let f = guarded(|| mitex_glob::glob_match_prefix(&t, &x))?;
    same("prefix match", &f, &want(exact.1))?;
    // braces at the very end of the string (see known findings)
    let both = p.contains(&G::Star) && p.iter().any(|g| matches!(g, G::Alt(_)));
    let deep = p.iter().any(|g| matches!(g, G::Alt(a) if a.iter().flatten().any(|g| matches!(g, G::Alt(_)))));
    let tight = p.iter().all(full_options);
    let f = guarded(|| mitex_glob::glob_match(&t, &x))?;
    if f == want(true) && !exact.0 {
        return Err("it is not described but matches".into());
    }
    if !both && (tight || !deep && !ends_before_braces(&p, x.as_bytes())) {
        same("match", &f, &want(exact.0))?;
    }
    Ok(())
}
fn garbage(s: &mut Src, o: &mut Obs) -> Res {
    const P: &[&str] = &["*", "**", "**/", "/**", "?", "[", "]", "[^", "[!", "-", "{", "}", ",", "\\", "!", "a", "b", "/", "é", "\0", "{,", "{a,b}", "[a-b]", "\\n"];
    const X: &[&str] = &["a", "b", "*", "{", "}", "é", "\0", "\n", ",", "ab", "[", "\\"];
    let (n, m) = if s.chance(1, 20) { (40, 40) } else { (12, 9) };
    let t: String = (0..s.below(n)).map(|_| P[s.below(P.len())]).collect();
    // many braces inside of each other
    let t = if s.chance(1, 12) {
        let n = s.range(2, 30);
        format!("{}{t}", s.pick(&["{", "{a,", "{{a},", "{*"]).repeat(n))
    } else {
        t
    };
    let x: String = (0..s.below(m)).map(|_| X[s.below(X.len())]).collect();
    o.show(format!("pattern {t:?} on {x:?}"));
    o.nontrivial = t.len() >= 3 && !x.is_empty();
    if dry() {
        return Ok(());
    }
    let f = guarded(|| mitex_glob::glob_match(&t, &x))?;
    guarded(|| mitex_glob::glob_match_prefix(&t, &x))?;
    let c = guarded(|| mitex_glob::glob_match_with_captures(&t, &x))?;
    same("a match with and without captures", &c.is_some(), &f)?;
    for r in c.unwrap_or_default().into_iter().filter(|_| !t.contains('{')) {
        if r.start > r.end || r.end > x.len() {
            return Err(format!("capture {r:?} is outside of the path"));
        }
    }
    Ok(())
}
/// The single inputs of the known findings.
fn known(s: &mut Src, o: &mut Obs) -> Res {
    const PREFIX: &[(&str, &str, &str)] = &[
        ("{b,}bt", "bt", "ambiguous-braces"),
        ("{*b}t", "tbb", "star-in-braces"),
    ];
    const FULL: &[(&str, &str, &str)] = &[("{,b}", "", "empty-braces-at-end"), ("a{,b}", "a", "empty-braces-at-end")];
    let i = s.below(PREFIX.len() + FULL.len());
    let (f, (p, x, sig)) = match PREFIX.get(i) {
        Some(c) => (mitex_glob::glob_match_prefix as fn(&str, &str) -> bool, *c),
        None => (mitex_glob::glob_match as fn(&str, &str) -> bool, FULL[i - PREFIX.len()]),
    };
    o.show(format!("{} on {x:?}", p));
    if dry() || guarded(|| f(p, x))? {
        return Ok(());
    }
    Err(format!("[sig:{sig}] {p} describes {x:?} but does not match it"))
}

fn main() {
    main_for(vec![Property {
        id: "C09",
        rule: "the pattern has more than literals and the path is not empty",
        assumptions: &[
            "brace groups have no stars inside and are nested up to five levels, and taking the longest alternative decides right (else: known findings)",
            "a brace group that matches nothing at the end of a path is only checked for prefixes (else: known findings)",
            "whole matches of patterns with stars and braces are checked to be described, prefix matches to be exact",
            "paths have no slashes: the parser only matches sequences of argument kinds (with slashes: known findings)",
        ],
        subs: vec![
            sub("specification", 3_000_000, 40_000_000, |s, o| check(&SPEC, s, o)),
            sub("no-braces", 800_000, 20_000_000, |s, o| check(&PLAIN, s, o)),
            sub("special-characters", 400_000, 10_000_000, |s, o| check(&ODD, s, o)),
            sub("any", 800_000, 20_000_000, garbage),
            sub("known", 50, 50, known),
        ],
    }]);
}
