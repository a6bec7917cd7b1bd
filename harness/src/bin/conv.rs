//! Conversion properties with constructive oracles.
use vk::doc::*;
use vk::*;

fn math(src: &str) -> Result<String, String> {
    guarded(|| mitex::convert_math(src, None)).and_then(|r| r)
}
fn text(src: &str) -> Result<String, String> {
    guarded(|| mitex::convert_text(src, None)).and_then(|r| r)
}
fn eq_math(got: &str, want: &str) -> Res {
    let (a, b) = (soft(&norm_math(got)), soft(&norm_math(want)));
    if a != b {
        return Err(format!("converted formula differs\n  got      {got}\n  expected {want}\n  got tokens      {a}\n  expected tokens {b}"));
    }
    Ok(())
}
fn eq_text(got: &str, want: &str) -> Res {
    let (a, b) = (soft(&norm_text(got)), soft(&norm_text(want)));
    if a != b {
        return Err(format!("converted text differs\n  got      {got:?}\n  expected {want:?}\n  got tokens      {a}\n  expected tokens {b}"));
    }
    Ok(())
}
fn check_math(s: &mut Src, v: &[M], o: &mut Obs) -> Res {
    let mut t = if s.chance(1, 4) { Tex::noisy(s) } else { Tex::plain() };
    t.list(v);
    o.show(t.out.clone());
    if dry() {
        return Ok(());
    }
    let want = typ_list(v);
    let got = math(&t.out).map_err(|e| format!("conversion failed: {e}\n expected {want}"))?;
    eq_math(&got, &want)
}
fn check_text(s: &mut Src, v: &[T], o: &mut Obs) -> Res {
    let mut t = if s.chance(1, 4) { Tex::noisy(s) } else { Tex::plain() };
    t.texts(v);
    o.show(t.out.clone());
    if dry() {
        return Ok(());
    }
    let want = typ_texts(v);
    let got = text(&t.out).map_err(|e| format!("conversion failed: {e}\n expected {want}"))?;
    eq_text(&got, &want)?;
    // and read with Typst's own parser it says the same
    let tree = tsyn::check_text(&got)?;
    let (a, b) = (tsyn::events(&tree), events(v));
    if a != b {
        return Err(format!("Typst reads the converted text differently\n  code     {got:?}\n  reads    {}\n  expected {}", a.join(" "), b.join(" ")));
    }
    Ok(())
}
/// With Typst's own parser the document says what it should (see C17 and C20 for
/// how lists and tables are laid out).
fn check_blocks(s: &mut Src, v: &[T], o: &mut Obs) -> Res {
    let mut t = if s.chance(1, 4) { Tex::noisy(s) } else { Tex::plain() };
    t.texts(v);
    o.show(t.out.clone());
    if dry() {
        return Ok(());
    }
    let got = text(&t.out).map_err(|e| format!("conversion failed: {e}"))?;
    let tree = tsyn::check_text(&got)?;
    let (mut a, mut b) = (tsyn::events(&tree), events(v));
    a.retain(|x| x != "PAR");
    b.retain(|x| x != "PAR");
    if a != b {
        return Err(format!("Typst reads the converted text differently\n  code     {got:?}\n  reads    {}\n  expected {}", a.join(" "), b.join(" ")));
    }
    Ok(())
}
/// a formula written in a text document, in one of the four ways
fn check_in_text(s: &mut Src, v: Vec<M>, o: &mut Obs) -> Res {
    let t = match s.below(4) {
        0 => T::Inline(false, v),
        1 => T::Inline(true, v),
        2 => T::Display(true, v),
        _ => T::Display(false, v),
    };
    check_text(s, &[T::Word("a".into()), T::Blank(" "), t, T::Blank(" "), T::Word("b".into())], o)
}
/// A formula with many items, rows or cells somewhere, or within many constructs.
fn large(s: &mut Src, cfg: Cfg) -> Vec<M> {
    let mut g = Gen { s, cfg: Cfg { big: 2, ..cfg } };
    let d = g.s.range(1, 3);
    let v = g.list(d);
    if g.s.chance(1, 3) {
        g.deepen(v)
    } else {
        v
    }
}
fn size(v: &[M]) -> usize {
    format!("{v:?}").matches('(').count()
}

fn c14() -> Property {
    Property {
        id: "C14",
        rule: "the formula has at least two items and one construct with operands",
        assumptions: &["blanks between Typst math tokens are insignificant"],
        subs: vec![
            sub("formula", 1_500_000, 30_000_000, |s, o| {
                let v = Gen { s, cfg: MATH.clone() }.list(4);
                o.nontrivial = v.len() > 1 && size(&v) > 4;
                check_math(s, &v, o)
            }),
            sub("deep", 500_000, 10_000_000, |s, o| {
                let cfg = Cfg { len: 2, cmd: 8, group: 6, lr: 5, sqrt: 3, word: 3, ..MATH };
                let v = Gen { s, cfg }.list(9);
                o.nontrivial = v.len() > 1 && size(&v) > 12;
                check_math(s, &v, o)
            }),
            sub("large", 60_000, 2_000_000, |s, o| {
                let v = large(s, MATH.clone());
                o.nontrivial = size(&v) > 12;
                check_math(s, &v, o)
            }),
            sub("in-text", 500_000, 10_000_000, |s, o| {
                let v = Gen { s, cfg: MATH.clone() }.list(3);
                o.nontrivial = v.len() > 1 && size(&v) > 4;
                check_in_text(s, v, o)
            }),
        ],
    }
}
/// A formula with rows and alignment marks outside of an environment.
enum Open {
    Items(Vec<M>),
    Amp,
    Row,
    Greedy(&'static str),
    Infix(&'static str),
}
fn open_rows(s: &mut Src, cfg: Cfg) -> Vec<Open> {
    let mut g = Gen { s, cfg };
    let mut v = vec![];
    let mut infix = false;
    let n = g.s.range(1, 5);
    for i in 0..n {
        if i > 0 {
            v.push(if g.s.chance(1, 2) { Open::Amp } else { Open::Row });
        }
        let d = g.s.range(0, 2);
        v.push(Open::Items(g.items(d, true)));
        match g.s.weighted(&[3, 2, 2]) {
            0 => continue,
            1 => v.push(Open::Greedy(g.s.pick(GREEDY))),
            _ if !infix => {
                infix = true;
                v.push(Open::Infix(g.s.pick(INFIX)))
            }
            _ => continue,
        }
        v.push(Open::Items(g.items(d, false)));
    }
    v
}
/// a style or infix command extends to the next alignment mark
fn typ_open(v: &[Open], i: &mut usize, inner: bool) -> String {
    let mut o = String::new();
    while *i < v.len() {
        match &v[*i] {
            Open::Amp if inner => return o,
            Open::Amp => o.push('&'),
            Open::Row => o.push_str("\\ "),
            Open::Items(m) => o.push_str(&typ_list(m)),
            Open::Greedy(n) => {
                *i += 1;
                let b = typ_open(v, i, true);
                o.push_str(&format!("{}({b})", alias(n)));
                continue;
            }
            Open::Infix(n) => {
                *i += 1;
                let b = typ_open(v, i, true);
                let b = if b.is_empty() { "zws ".into() } else { b };
                o = format!("{}({o},{b})", alias(n));
                continue;
            }
        }
        *i += 1;
    }
    o
}
fn c04() -> Property {
    let cfg = || Cfg { script: 10, limits: 4, infix: 5, greedy: 5, word: 6, punct: 1, text: 0, color: 0, lr: 2, group: 4, env: 1, ..MATH };
    Property {
        id: "C04",
        rule: "the formula contains at least two scripts, primes, limits, infix or style commands",
        assumptions: &["blanks between Typst math tokens are insignificant"],
        subs: vec![
            sub("bind", 1_500_000, 30_000_000, move |s, o| {
                let v = Gen { s, cfg: cfg() }.list(4);
                let d = format!("{v:?}");
                o.nontrivial = ["Script(", "Limits(", "Infix(", "Greedy("].iter().map(|k| d.matches(k).count()).sum::<usize>() >= 2;
                for k in ["Script(", "Limits(", "Infix(", "Greedy("] {
                    o.label_if(d.contains(k), k);
                }
                check_math(s, &v, o)
            }),
            sub("large", 60_000, 2_000_000, move |s, o| {
                let v = large(s, cfg());
                let d = format!("{v:?}");
                o.nontrivial = ["Script(", "Limits(", "Infix(", "Greedy("].iter().map(|k| d.matches(k).count()).sum::<usize>() >= 4;
                check_math(s, &v, o)
            }),
            sub("open-rows", 500_000, 8_000_000, move |s, o| {
                let v = open_rows(s, cfg());
                let mut t = Tex::plain();
                for x in &v {
                    match x {
                        Open::Amp => t.put("&"),
                        Open::Row => t.put("\\\\"),
                        Open::Items(m) => t.list(m),
                        Open::Greedy(n) | Open::Infix(n) => t.put(&format!("\\{n}")),
                    }
                }
                o.show(t.out.clone());
                o.nontrivial = v.iter().filter(|x| matches!(x, Open::Amp | Open::Row | Open::Greedy(_) | Open::Infix(_))).count() > 1;
                if dry() {
                    return Ok(());
                }
                let want = typ_open(&v, &mut 0, false);
                let got = math(&t.out).map_err(|e| format!("conversion failed: {e}\n expected {want}"))?;
                eq_math(&got, &want)
            }),
            sub("in-text", 300_000, 6_000_000, move |s, o| {
                let v = Gen { s, cfg: cfg() }.list(3);
                let d = format!("{v:?}");
                o.nontrivial = ["Script(", "Limits(", "Infix(", "Greedy("].iter().map(|k| d.matches(k).count()).sum::<usize>() >= 2;
                check_in_text(s, v, o)
            }),
        ],
    }
}
fn c16() -> Property {
    let cfg = || Cfg { env: 6, len: 3, color: 0, greedy: 1, infix: 1, ..MATH };
    let cells = |m: &M| match m {
        M::Env(_, _, r, _) => r.iter().map(|r| r.len()).sum(),
        M::Substack(r) => r.len(),
        _ => 0,
    };
    Property {
        id: "C16",
        rule: "the outermost environment has at least two cells or an environment is nested in it",
        assumptions: &["blanks between Typst math tokens are insignificant"],
        subs: vec![
            sub("formula", 1_000_000, 20_000_000, move |s, o| {
                let mut g = Gen { s, cfg: cfg() };
                let m = g.env(3);
                let d = format!("{m:?}");
                o.nontrivial = cells(&m) > 1 || d.matches("Env(").count() > 1;
                o.label_if(d.matches("Env(").count() + d.matches("Substack(").count() > 1, "nested");
                check_math(s, &[m], o)
            }),
            sub("large", 60_000, 2_000_000, move |s, o| {
                let mut g = Gen { s, cfg: Cfg { big: 2, ..cfg() } };
                let d = g.s.range(0, 2);
                let m = g.env(d);
                o.nontrivial = cells(&m) > 8;
                let v = if g.s.chance(1, 4) { g.deepen(vec![m]) } else { vec![m] };
                check_math(s, &v, o)
            }),
            sub("in-text", 500_000, 10_000_000, move |s, o| {
                let mut g = Gen { s, cfg: cfg() };
                let m = g.env_only(2);
                let l = g.s.chance(1, 3).then(|| "eq:a".to_string());
                o.nontrivial = cells(&m) > 1;
                let t = [T::Word("a".into()), T::Blank("\n\n"), T::EnvMath(m, l), T::Word("b".into())];
                check_text(s, &t, o)
            }),
        ],
    }
}
fn c15() -> Property {
    Property {
        id: "C15",
        rule: "the document has at least four pieces, one of them a command, group or formula",
        assumptions: &["in markup, a run of blanks counts as a space, a line break or a paragraph break", "trusts the typst-syntax parser"],
        subs: vec![
            sub("document", 1_000_000, 20_000_000, |s, o| {
                let cfg = Cfg { len: 3, text: 3, ..MATH };
                let v = Gen { s, cfg }.tdoc(4, 8, false);
                o.nontrivial = v.len() >= 4 && v.iter().any(|t| !matches!(t, T::Word(_) | T::Punct(..) | T::Blank(_)));
                check_text(s, &v, o)
            }),
            sub("blocks", 500_000, 10_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 3, text: 3, ..MATH } };
                let mut v = g.tdoc(4, 4, true);
                if g.s.chance(1, 2) {
                    let b = match g.s.below(2) {
                        0 => T::Table(g.table(2)),
                        _ => g.tlist(3),
                    };
                    v.extend([T::Blank("\n\n"), b, T::Blank("\n\n")]);
                    v.extend(g.tdoc(2, 3, false));
                }
                o.nontrivial = v.iter().any(|t| matches!(t, T::Table(_) | T::List(..) | T::Quote(..)));
                check_blocks(s, &v, o)
            }),
            sub("large", 40_000, 1_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 3, text: 3, big: 2, ..MATH } };
                let d = g.s.range(1, 3);
                let v = g.tdoc(d, 8, false);
                let v = if g.s.chance(1, 3) {
                    let v = trim(g.tinline(1, 4));
                    g.deepen_text(v)
                } else {
                    v
                };
                o.nontrivial = format!("{v:?}").len() > 300;
                check_text(s, &v, o)
            }),
            sub("text-in-formula", 500_000, 10_000_000, |s, o| {
                let cfg = Cfg { len: 3, text: 12, ..MATH };
                let v = Gen { s, cfg }.list(4);
                o.nontrivial = format!("{v:?}").contains("TextCmd");
                check_math(s, &v, o)
            }),
        ],
    }
}
fn c18() -> Property {
    Property {
        id: "C18",
        rule: "the two texts differ in layout",
        assumptions: &["in formulas blanks are insignificant; in text a space and a line break are the same, a blank line is not"],
        subs: vec![
            sub("formula", 1_000_000, 20_000_000, |s, o| {
                let v = Gen { s, cfg: MATH.clone() }.list(4);
                let mut a = Tex::plain();
                a.list(&v);
                let mut b = Tex::noisy(s);
                b.list(&v);
                o.show(b.out.clone());
                o.nontrivial = a.out != b.out;
                o.label_if(b.out.contains("%\n") || b.out.contains("% "), "comment");
                if dry() {
                    return Ok(());
                }
                let want = math(&a.out).map_err(|e| format!("plain layout {:?} failed: {e}", a.out))?;
                let got = math(&b.out).map_err(|e| format!("conversion failed: {e}; but {:?} converts to {want}", a.out))?;
                let n = |s: &str| soft(&norm_math(s));
                let (x, y) = (n(&got), n(&want));
                if x != y {
                    return Err(format!("layout changes the result\n  plain {:?}\n  gives {want}\n  this  {got}\n  tokens {y}\n  this   {x}", a.out));
                }
                Ok(())
            }),
            sub("document", 1_000_000, 20_000_000, |s, o| {
                let cfg = Cfg { len: 3, text: 3, ..MATH };
                let v = Gen { s, cfg }.tdoc(4, 8, false);
                let mut a = Tex::plain();
                a.texts(&v);
                let mut b = Tex::noisy(s);
                b.texts(&v);
                o.show(b.out.clone());
                o.nontrivial = a.out != b.out;
                o.label_if(b.out.contains("%\n") || b.out.contains("% "), "comment");
                if dry() {
                    return Ok(());
                }
                let want = text(&a.out).map_err(|e| format!("plain layout {:?} failed: {e}", a.out))?;
                let got = text(&b.out).map_err(|e| format!("conversion failed: {e}; but {:?} converts to {want}", a.out))?;
                let n = |s: &str| soft(&norm_text(s));
                let (x, y) = (n(&got), n(&want));
                if x != y {
                    return Err(format!("layout changes the result\n  plain {:?}\n  gives {want:?}\n  this  {got:?}\n  tokens {y}\n  this   {x}", a.out));
                }
                Ok(())
            }),
        ],
    }
}
fn main() {
    main_for(vec![c04(), c14(), c15(), c16(), c18()])
}
