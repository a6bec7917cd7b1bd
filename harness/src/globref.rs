//! Reference for glob patterns: the set of strings a pattern describes, by
//! structural recursion over the parsed pattern.
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub enum G {
    Lit(u8),
    Any,
    Star,
    Class(bool, Vec<(u8, u8)>),
    Alt(Vec<Vec<G>>),
}

fn sep(b: u8) -> bool {
    b == b'/'
}
type Ends = BTreeSet<usize>;

/// Positions after matching `p` from any of `from`; `part` tells whether the end
/// of the path was met while something was still to be matched.
fn step(g: &G, path: &[u8], from: &Ends, part: &mut bool, longest: bool) -> Ends {
    let mut out = Ends::new();
    for &i in from {
        let c = path.get(i).copied();
        match g {
            G::Lit(b) => match c {
                Some(c) if c == *b => {
                    out.insert(i + 1);
                }
                None => *part = true,
                _ => {}
            },
            G::Any => match c {
                Some(c) if !sep(c) => {
                    out.insert(i + 1);
                }
                None => *part = true,
                _ => {}
            },
            G::Class(neg, rs) => match c {
                Some(c) if rs.iter().any(|(l, h)| *l <= c && c <= *h) != *neg => {
                    out.insert(i + 1);
                }
                None => *part = true,
                _ => {}
            },
            G::Star => {
                let mut j = i;
                out.insert(j);
                while j < path.len() && !sep(path[j]) {
                    j += 1;
                    out.insert(j);
                }
                if j == path.len() {
                    *part = true;
                }
            }
            G::Alt(xs) => {
                let one = Ends::from([i]);
                let mut here = Ends::new();
                for x in xs {
                    here.extend(steps(x, path, &one, part, longest));
                }
                match here.last() {
                    Some(l) if longest => {
                        out.insert(*l);
                    }
                    _ => out.extend(here),
                }
            }
        }
    }
    out
}
fn steps(p: &[G], path: &[u8], from: &Ends, part: &mut bool, longest: bool) -> Ends {
    let mut cur = from.clone();
    for g in p {
        if cur.is_empty() {
            break;
        }
        cur = step(g, path, &cur, part, longest);
    }
    cur
}
/// (matches fully, is a prefix of some match)
pub fn matches(p: &[G], path: &[u8], longest: bool) -> (bool, bool) {
    let mut part = false;
    let e = steps(p, path, &Ends::from([0]), &mut part, longest);
    let full = e.contains(&path.len());
    (full, full || part)
}

pub fn write(p: &[G], out: &mut String) {
    let lit = |b: u8, out: &mut String| {
        if b"*?[]{},!\\".contains(&b) {
            out.push('\\');
        }
        out.push(b as char);
    };
    for g in p {
        match g {
            G::Lit(b) => lit(*b, out),
            G::Any => out.push('?'),
            G::Star => out.push('*'),
            G::Class(neg, rs) => {
                out.push('[');
                if *neg {
                    out.push(if rs[0].1 % 2 == 0 { '!' } else { '^' });
                }
                // marks have a backslash, but a first `]` needs none
                let put = |b: u8, first: bool, out: &mut String| {
                    if !b.is_ascii_alphanumeric() && !(first && b == b']') {
                        out.push('\\');
                    }
                    out.push(b as char);
                };
                for (i, (l, h)) in rs.iter().enumerate() {
                    put(*l, i == 0, out);
                    if h != l {
                        out.push('-');
                        put(*h, false, out);
                    }
                }
                out.push(']');
            }
            G::Alt(xs) => {
                out.push('{');
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    write(x, out);
                }
                out.push('}');
            }
        }
    }
}
