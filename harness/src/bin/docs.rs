//! Whole documents: totality, validity, lists, tables, figures, colours, purity.
use vk::doc::*;
use vk::*;

fn math(src: &str) -> Result<String, String> {
    guarded(|| mitex::convert_math(src, None)).and_then(|r| r)
}
fn text(src: &str) -> Result<String, String> {
    guarded(|| mitex::convert_text(src, None)).and_then(|r| r)
}
/// what Typst reads is what the document says; blanks are not compared, and
/// paragraph breaks only if asked for
fn check_reads(v: &[T], pars: bool, mut t: Tex, o: &mut Obs) -> Res {
    t.texts(v);
    o.show(t.out.clone());
    if dry() {
        return Ok(());
    }
    let got = text(&t.out).map_err(|e| format!("conversion failed: {e}"))?;
    let tree = tsyn::check_text(&got)?;
    let (mut a, mut b) = (no_par(tsyn::events(&tree)), no_par(events(v)));
    if !pars {
        a.retain(|x| x != "PAR");
        b.retain(|x| x != "PAR");
    }
    if a != b {
        return Err(format!("Typst reads the converted text differently\n  code     {got:?}\n  reads    {}\n  expected {}", a.join(" "), b.join(" ")));
    }
    Ok(())
}
fn check_text(v: &[T], o: &mut Obs) -> Res {
    let mut t = Tex::plain();
    t.texts(v);
    o.show(t.out.clone());
    if dry() {
        return Ok(());
    }
    let want = typ_texts(v);
    let got = text(&t.out).map_err(|e| format!("conversion failed: {e}\n expected {want}"))?;
    let (a, b) = (soft(&norm_text(&got)), soft(&norm_text(&want)));
    if a != b {
        return Err(format!("converted text differs\n  got      {got:?}\n  expected {want:?}\n  got tokens      {a}\n  expected tokens {b}"));
    }
    reads(&got, v)
}
/// a list is a block of its own, with or without blank lines around its items
fn no_par(v: Vec<String>) -> Vec<String> {
    let item = |s: &str| s == "- (" || s == "+ (";
    let mut o: Vec<String> = vec![];
    for t in v {
        if item(&t) && o.last().is_some_and(|l| l == "PAR") {
            o.pop();
        }
        if t == ")" && o.last().is_some_and(|l| l == "PAR") {
            o.pop();
        }
        if t == "PAR" && o.last().is_some_and(|l| l == ")" || item(l)) {
            continue;
        }
        o.push(t);
    }
    o
}
fn reads(got: &str, v: &[T]) -> Res {
    let tree = tsyn::check_text(got)?;
    let (a, b) = (no_par(tsyn::events(&tree)), no_par(events(v)));
    if a != b {
        return Err(format!("Typst reads the converted text differently\n  code     {got:?}\n  reads    {}\n  expected {}", a.join(" "), b.join(" ")));
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
fn c17() -> Property {
    Property {
        id: "C17",
        rule: "some list has at least two items, or a list is nested in another one",
        assumptions: &["trusts the typst-syntax parser; whether a list is tight is not compared"],
        subs: vec![
            sub("lists", 600_000, 15_000_000, |s, o| {
                let cfg = Cfg { len: 3, text: 2, ..MATH };
                let (v, noisy) = {
                    let mut g = Gen { s, cfg };
                    let mut v = trim(g.tinline(1, 3));
                    let d = g.s.range(0, 4);
                    let n = g.s.range(1, 2);
                    for _ in 0..n {
                        let l = g.tlist(d);
                        v.push(l);
                        if g.s.chance(1, 2) {
                            v.push(T::Blank(g.s.pick(&["\n", "\n\n", " "])));
                        }
                        if g.s.chance(1, 2) {
                            v.push(T::Word("after".into()));
                            v.push(T::Blank("\n\n"));
                        }
                    }
                    (v, g.s.chance(1, 2))
                };
                let mut t = if noisy { Tex::noisy(s) } else { Tex::plain() };
                t.texts(&v);
                let src = t.out;
                o.show(src.clone());
                let d = format!("{v:?}");
                o.nontrivial = src.matches("\\item").count() > 1;
                o.label_if(d.matches("List(").count() > 1, "several lists");
                o.label_if(noisy, "free layout");
                o.label_if(src.contains("}after") || src.contains("} after"), "text after a list in its line");
                if dry() {
                    return Ok(());
                }
                let got = text(&src).map_err(|e| format!("conversion failed: {e}"))?;
                reads(&got, &v)
            }),
            sub("large", 40_000, 1_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 3, text: 2, big: 2, ..MATH } };
                let d = g.s.range(0, 2);
                let mut l = g.tlist(d);
                if g.s.chance(1, 3) {
                    l = g.deepen_list(l);
                }
                let v = [l];
                let mut t = if s.chance(1, 3) { Tex::noisy(s) } else { Tex::plain() };
                t.texts(&v);
                o.show(t.out.clone());
                o.nontrivial = t.out.matches("\\item").count() > 4;
                if dry() {
                    return Ok(());
                }
                let got = text(&t.out).map_err(|e| format!("conversion failed: {e}"))?;
                reads(&got, &v)
            }),
            sub("outside", 50_000, 1_000_000, |s, o| {
                // an \item that is not directly in a list
                let cfg = Cfg { len: 2, ..MATH };
                let mut g = Gen { s, cfg };
                let mut v = g.tdoc(2, 4, false);
                let at = g.s.below(v.len() + 1);
                let mut w = vec![T::Raw("\\item ".into()), T::Word("x".into())];
                w = match g.s.below(4) {
                    0 => w,
                    1 => vec![T::Quote("quote", w)],
                    2 => vec![T::List(true, vec![vec![T::Word("i".into()), T::Quote("quote", w)]])],
                    _ => vec![T::List(false, vec![vec![T::Word("i".into())]]), T::Blank("\n\n"), w.remove(0)],
                };
                v.splice(at..at, w);
                let mut t = Tex::plain();
                t.texts(&v);
                o.show(t.out.clone());
                o.nontrivial = true;
                if dry() {
                    return Ok(());
                }
                match text(&t.out) {
                    Err(e) if e.contains("item") => Ok(()),
                    r => Err(format!("expected an error about \\item, got {r:?}")),
                }
            }),
        ],
    }
}

// ------------------------------------------------------------------ C20
fn c20() -> Property {
    Property {
        id: "C20",
        rule: "the table has at least four cells or a rule; the figure has a caption, label, table or image; the document has a label",
        assumptions: &["trusts the typst-syntax parser", "an empty cell at the very end of a table may be left out"],
        subs: vec![
            sub("tables", 600_000, 12_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 2, ..MATH } };
                let t = g.table(3);
                o.nontrivial = t.rows.iter().map(|r| r.1.len()).sum::<usize>() >= 4 || t.rows.iter().any(|r| !r.0.is_empty());
                o.label_if(t.rows.iter().any(|r| r.1.iter().any(|c| c.is_empty())), "empty cell");
                o.label_if(t.end.is_none(), "last row not ended");
                check_text(&[T::Word("a".into()), T::Blank("\n\n"), T::Table(t), T::Word("b".into())], o)
            }),
            sub("large-tables", 20_000, 1_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 2, big: 2, ..MATH } };
                let d = g.s.range(1, 2);
                let t = g.table(d);
                o.nontrivial = t.rows.iter().map(|r| r.1.len()).sum::<usize>() >= 12;
                check_text(&[T::Word("a".into()), T::Blank("\n\n"), T::Table(t), T::Word("b".into())], o)
            }),
            sub("table-layout", 300_000, 6_000_000, |s, o| {
                let t = Gen { s, cfg: Cfg { len: 2, ..MATH } }.table(3);
                let v = [T::Table(t)];
                let mut x = Tex::noisy(s);
                x.texts(&v);
                o.show(x.out.clone());
                o.nontrivial = x.out.contains('%') || x.out.contains('\n');
                if dry() {
                    return Ok(());
                }
                let got = text(&x.out).map_err(|e| format!("conversion failed: {e}"))?;
                reads(&got, &v)
            }),
            sub("figures", 400_000, 8_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 2, ..MATH } };
                let f = g.figure(3);
                o.nontrivial = f.caption.is_some() || f.label.is_some() || f.body.iter().any(|t| matches!(t, T::Table(_) | T::Image(..)));
                o.label_if(f.label.is_some(), "label");
                let v = [T::Word("a".into()), T::Blank("\n\n"), T::Figure(f), T::Blank("\n\n"), T::Word("b".into())];
                let t = if s.chance(1, 3) { Tex::noisy(s) } else { Tex::plain() };
                check_reads(&v, false, t, o)
            }),
            sub("large-figures", 10_000, 400_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 2, big: 2, ..MATH } };
                let f = g.figure(2);
                o.nontrivial = f.body.len() > 5 || f.body.iter().any(|t| matches!(t, T::Table(t) if t.rows.len() > 4));
                let v = [T::Word("a".into()), T::Blank("\n\n"), T::Figure(f), T::Blank("\n\n"), T::Word("b".into())];
                check_reads(&v, false, Tex::plain(), o)
            }),
            sub("labels", 400_000, 8_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 2, ..MATH } };
                let n = g.s.range(1, 4);
                let mut v = vec![];
                for _ in 0..n {
                    let l = g.s.pick(LABELS).to_string();
                    match g.s.below(5) {
                        0 => {
                            let t = trim(g.tinline(1, 3));
                            v.push(T::Cmd(g.s.pick(&["section", "subsection", "subsubsection"]), vec![t]));
                            if g.s.chance(1, 3) {
                                v.push(T::Blank("\n"));
                            }
                            v.push(T::Label(l));
                        }
                        1 => {
                            let m = g.env_only(1);
                            v.push(T::EnvMath(m, Some(l)));
                        }
                        2 => {
                            let mut f = g.figure(2);
                            f.label = Some(l);
                            v.push(T::Figure(f));
                        }
                        3 => {
                            // an unlabelled one
                            let m = g.env_only(1);
                            v.push(T::EnvMath(m, None));
                        }
                        _ => {
                            let mut f = g.figure(2);
                            f.label = None;
                            v.push(T::Figure(f));
                        }
                    }
                    push_t(&mut v, T::Blank("\n\n"));
                }
                o.nontrivial = events(&v).iter().any(|e| e.starts_with("LABEL"));
                let t = if s.chance(1, 3) { Tex::noisy(s) } else { Tex::plain() };
                check_reads(&v, false, t, o)
            }),
            sub("malformed", 100_000, 2_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 2, ..MATH } };
                let bad = match g.s.below(7) {
                    0 => {
                        let mut t = g.table(2);
                        let at = g.s.below(t.spec.len() + 1);
                        t.spec.insert_str(at, g.s.pick(&["x", "p", "L", "&", "1", "@", "\\alpha", "é", "m{3cm}"]));
                        let mut x = Tex::plain();
                        x.texts(&[T::Table(t)]);
                        x.out
                    }
                    1 => "\\begin{tabular}\\end{tabular}".to_string(),
                    2 => "\\label".into(),
                    3 => "\\label{eq:x".into(),
                    4 => g.s.pick(&["\\includegraphics", "\\includegraphics[width=3cm]", "\\includegraphics{a.png"]).to_string(),
                    5 => "\\begin{figure}x\\caption\\end{figure}".into(),
                    _ => g.s.pick(&["\\begin{tabular}{c\n\n", "\\end{tabular}", "\\begin{tabular}{c"]).to_string(),
                };
                let v = g.tdoc(2, 4, false);
                let mut t = Tex::plain();
                t.texts(&v);
                // at the end of the text, so that nothing completes it
                let wrap = g.s.below(3);
                let src = match wrap {
                    0 => format!("{} {bad}", t.out),
                    1 if !bad.contains('{') || bad.contains('}') => format!("{}\\begin{{quote}}{bad}\\end{{quote}}", t.out),
                    _ => format!("{}\n\n{bad}", t.out),
                };
                o.show(src.clone());
                o.nontrivial = true;
                if dry() {
                    return Ok(());
                }
                match text(&src) {
                    Err(_) => Ok(()),
                    Ok(r) => Err(format!("{bad:?} is accepted and converted to {r:?}")),
                }
            }),
        ],
    }
}

// ------------------------------------------------------------------ C25
fn c25() -> Property {
    Property {
        id: "C25",
        rule: "there is a colour command with something coloured, or an image with an option",
        assumptions: &["trusts the typst-syntax parser"],
        subs: vec![
            sub("text", 400_000, 8_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 3, color: 4, ..MATH } };
                let n = g.s.range(1, 4);
                let mut v: Vec<T> = vec![];
                for _ in 0..n {
                    let model = if g.s.chance(1, 3) { Some("gray") } else { None };
                    let c = g.s.pick(COLORS);
                    match g.s.below(4) {
                        0 => {
                            // (an apostrophe would be a prime of the colour's name)
                            let mut b = no_prime(g.tinline(2, 4));
                            while matches!(b.last(), Some(T::Blank(_))) {
                                b.pop();
                            }
                            v.push(T::ColorRest(model, c, b));
                        }
                        1 => {
                            let b = g.tinline(2, 4);
                            v.push(T::Color(g.s.pick(&["textcolor", "colorbox"]), model, c, b));
                        }
                        2 => {
                            let m = g.list(2);
                            v.push(T::Inline(true, m));
                        }
                        _ => {
                            for t in g.tinline(1, 2) {
                                push_t(&mut v, t);
                            }
                        }
                    }
                }
                o.nontrivial = format!("{v:?}").contains("Color");
                let t = if s.chance(1, 3) { Tex::noisy(s) } else { Tex::plain() };
                check_reads(&v, true, t, o)
            }),
            sub("math", 800_000, 15_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { color: 8, group: 4, env: 2, ..MATH } };
                let mut v = g.list(4);
                if !format!("{v:?}").contains("Color") {
                    let b = g.list(2);
                    v = vec![M::Group(vec![M::Color(None, "red", b)])];
                }
                o.nontrivial = true;
                let mut t = if s.chance(1, 4) { Tex::noisy(s) } else { Tex::plain() };
                t.list(&v);
                o.show(t.out.clone());
                if dry() {
                    return Ok(());
                }
                let want = typ_list(&v);
                let got = math(&t.out).map_err(|e| format!("conversion failed: {e}\n expected {want}"))?;
                let (a, b) = (soft(&norm_math(&got)), soft(&norm_math(&want)));
                if a != b {
                    return Err(format!("converted formula differs\n  got      {got}\n  expected {want}\n  got tokens      {a}\n  expected tokens {b}"));
                }
                Ok(())
            }),
            sub("images", 200_000, 4_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 2, ..MATH } };
                let i = g.image();
                o.nontrivial = matches!(&i, T::Image(_, o) if !o.is_empty());
                let mut v = vec![T::Word("a".into()), T::Blank(" "), i, T::Blank(" ")];
                if g.s.chance(1, 3) {
                    v = vec![T::Quote("quote", v)];
                }
                let mut t = if g.s.chance(1, 2) { Tex::noisy(s) } else { Tex::plain() };
                t.texts(&v);
                let src = t.out;
                o.show(src.clone());
                if dry() {
                    return Ok(());
                }
                let got = text(&src).map_err(|e| format!("conversion failed: {e}"))?;
                reads(&got, &v)
            }),
            sub("incomplete", 20_000, 400_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { len: 2, ..MATH } };
                let bad = g.s.pick(&["\\includegraphics", "\\includegraphics[width=3cm]", "\\includegraphics{a.png", "\\includegraphics[width"]);
                let v = g.tdoc(2, 3, false);
                let mut t = Tex::plain();
                t.texts(&v);
                let src = format!("{} {bad}", t.out);
                o.show(src.clone());
                o.nontrivial = true;
                if dry() {
                    return Ok(());
                }
                match text(&src) {
                    Err(_) => Ok(()),
                    Ok(r) => Err(format!("{bad:?} is accepted and converted to {r:?}")),
                }
            }),
        ],
    }
}
fn main() {
    main_for(vec![c17(), c20(), c25()])
}
