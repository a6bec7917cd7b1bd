//! Converted text is evaluated by Typst, in the scope of the shipped package.
use vk::catal::*;
use vk::doc::*;
use vk::tyrun::*;
use vk::*;

const CFG: Cfg = Cfg { sym: 8, cmd: 7, text: 2, limits: 2, lr: 3, infix: 2, greedy: 2, env: 3, word: 5, ..MATH };
const HEAD: &str = "#import \"/repo/packages/mitex/specs/mod.typ\": mitex-scope\n";
const EVALS: &str = "#let in-math(t) = math.equation(block: true, eval(\"$\" + t + \"$\", scope: mitex-scope))\n#let in-text(t) = eval(t, mode: \"markup\", scope: mitex-scope + (image: (..a) => rect()))\n";
/// The ones that do not evaluate, with what Typst says.
fn bad(what: &str, ts: &[String]) -> Vec<(usize, String)> {
    let doc = |ts: &[String]| {
        let mut o = format!("{HEAD}{EVALS}");
        for t in ts {
            o.push_str(&format!("#in-{what}({})\n\n", lit(t)));
        }
        o
    };
    if typst(&doc(ts)).is_ok() {
        return vec![];
    }
    ts.iter().enumerate().filter_map(|(i, t)| typst(&doc(std::slice::from_ref(t))).err().map(|e| (i, e))).collect()
}


/// Without the names that do not evaluate.
fn clean(t: String) -> String {
    t.replace("{Vmatrix}", "{vmatrix}")
}
fn report(what: &str, tex: &[String], spec: fn(&str) -> Result<String, String>) -> Res {
    let mut codes = vec![];
    for t in tex {
        match guarded(|| spec(t))? {
            Ok(c) => codes.push(c),
            Err(e) => return Err(format!("{t:?} is refused: {e}")),
        }
    }
    match bad(what, &codes).into_iter().next() {
        None => Ok(()),
        Some((i, e)) => Err(format!("{:?} converts to {:?}, which does not evaluate: {e}", tex[i], codes[i])),
    }
}
fn math(t: &str) -> Result<String, String> {
    mitex::convert_math(t, None)
}
fn text(t: &str) -> Result<String, String> {
    mitex::convert_text(t, None)
}
fn names(keep: usize) -> Names<'static> {
    let c = usable();
    Names { syms: &c.syms, solid: &c.solid, cmds: &c.cmds, texts: &c.texts, left: &c.left, greedy: &c.greedy, infix: &c.infix, envs: &c.envs, keep, mend: true, used: vec![] }
}
/// One formula about a name.
fn about(s: &mut Src, n: &'static str) -> Option<Vec<M>> {
    let c = cat();
    let mut g = Gen { s, cfg: CFG };
    let mut v = g.items(1, false);
    let arg = |g: &mut Gen| if g.s.chance(1, 2) { Arg::Braced(g.items(1, true)) } else { Arg::Bare(Box::new(M::Word("x".into()))) };
    v.push(if c.syms.contains(&n) {
        M::Sym(n)
    } else if n == "mathscr" {
        M::Cmd(n, vec![Arg::Braced(vec![M::Word(g.s.pick(&["A", "xy", "LMN"]).into())])])
    } else if let Some(k) = (1..3).find(|k| c.cmds[*k].contains(&n)) {
        M::Cmd(n, (0..k).map(|_| arg(&mut g)).collect())
    } else if c.texts.contains(&n) {
        M::TextCmd(n, vec![T::Word("x".into())])
    } else if c.left.contains(&n) {
        M::Limits(Box::new(M::Sym("sum")), n, vec![('_', arg(&mut g))])
    } else if c.greedy.contains(&n) {
        M::Group(vec![M::Greedy(n, g.items(1, true))])
    } else if c.infix.contains(&n) {
        let (l, r) = (g.items(1, true), g.items(1, true));
        M::Group(vec![M::Infix(n, l, r)])
    } else if let Some((_, w)) = (0..3).flat_map(|k| [(k, 0), (k, 1)]).find(|(k, w)| c.envs[*k][*w].contains(&n)) {
        let a = if n.contains("array") { "lc" } else { "2" };
        let rows = (0..g.s.range(1, 3)).map(|_| (0..g.s.range(1, 3)).map(|_| g.items(1, true)).collect()).collect();
        M::Env(n, (w == 1).then(|| vec![M::Word(a.into())]), rows, false)
    } else {
        return None;
    });
    v.push(M::Word("y".into()));
    names(8).list(s, &mut v);
    Some(v)
}
fn each_name(s: &mut Src, o: &mut Obs) -> Res {
    let c = cat();
    let mut tex = vec![];
    for _ in 0..s.range(1, 30) {
        let n = c.known[s.below(c.known.len())];
        if BROKEN.contains(&n) || (OTHERS.contains(&n) && !n.contains("array") && n != "mathscr") {
            continue;
        }
        if let Some(v) = about(s, n) {
            tex.push(clean(tex_of(&v)));
        }
    }
    o.show(tex.join("\n"));
    o.nontrivial = tex.len() > 3;
    if dry() {
        return Ok(());
    }
    report("math", &tex, math)
}
fn formulas(s: &mut Src, o: &mut Obs) -> Res {
    let mut tex = vec![];
    let mut used = 0;
    for _ in 0..s.range(1, 30) {
        let mut v = Gen { s, cfg: CFG }.list(3);
        let mut n = names(3);
        n.list(s, &mut v);
        used += n.used.len();
        tex.push(clean(tex_of(&v)));
    }
    o.show(tex.join("\n"));
    o.nontrivial = used > 3;
    if dry() {
        return Ok(());
    }
    report("math", &tex, math)
}
fn documents(s: &mut Src, o: &mut Obs) -> Res {
    let mut tex = vec![];
    let mut size = 0;
    for _ in 0..s.range(1, 12) {
        let mut g = Gen { s, cfg: CFG };
        let mut v = match g.s.below(4) {
            0 => vec![T::Table(g.table(2))],
            1 => vec![T::Figure(g.figure(2))],
            2 => vec![g.tlist(2)],
            _ => no_prime(trim(g.tdoc(3, 6, true))),
        };
        let mut n = names(5);
        n.texts(s, &mut v);
        size += v.len();
        let mut x = Tex::plain();
        x.texts(&v);
        tex.push(clean(x.out));
    }
    o.show(tex.join("\n----\n"));
    o.nontrivial = size > 3;
    if dry() {
        return Ok(());
    }
    report("text", &tex, text)
}
/// What is known not to evaluate.
const KNOWN: &[(&str, &str)] = &[("empty-style", "{\\rm}y"), ("empty-alignedat", "\\begin{alignedat}{2}\\end{alignedat}"), ("brackets-as-index", "\\sqrt[{[}]x")];
fn broken(s: &mut Src, o: &mut Obs) -> Res {
    let i = s.below(BROKEN.len() + KNOWN.len());
    let (sig, tex) = match BROKEN.get(i) {
        Some(n) => {
            let v = about(s, n).ok_or_else(|| format!("{n} is not in the catalogue"))?;
            (format!("name-{n}"), tex_of(&v))
        }
        None => {
            let (n, t) = KNOWN[i - BROKEN.len()];
            (n.to_string(), t.to_string())
        }
    };
    o.show(tex.clone());
    if dry() {
        return Ok(());
    }
    report("math", &[tex], math).map_err(|e| format!("[sig:{sig}] {e}"))
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--names") {
        let c = cat();
        for n in &c.known {
            let a = || Arg::Braced(vec![M::Word("x".into())]);
            let m = if c.syms.contains(n) {
                M::Sym(n)
            } else if let Some(k) = (1..3).find(|k| c.cmds[*k].contains(n)) {
                M::Cmd(n, (0..k).map(|_| a()).collect())
            } else if c.texts.contains(n) {
                M::TextCmd(n, vec![T::Word("x".into())])
            } else if c.left.contains(n) {
                M::Limits(Box::new(M::Sym("sum")), n, vec![('_', a())])
            } else if c.greedy.contains(n) {
                M::Greedy(n, vec![M::Word("x".into())])
            } else if c.infix.contains(n) {
                M::Infix(n, vec![M::Word("x".into())], vec![M::Word("x".into())])
            } else if let Some((_, w)) = (0..3).flat_map(|k| [(k, 0), (k, 1)]).find(|(k, w)| c.envs[*k][*w].contains(n)) {
                M::Env(n, (w == 1).then(|| vec![M::Word("2".into())]), vec![vec![vec![M::Word("x".into())]; 2]; 2], false)
            } else {
                println!("{n}: not used");
                continue;
            };
            let mut x = Tex::plain();
            x.list(&[m]);
            match mitex::convert_math(&x.out, None) {
                Err(e) => println!("{n}: {e}"),
                Ok(t) => {
                    if let Some((_, e)) = bad("math", &[t.clone()]).pop() {
                        println!("{n}: {t}: {e}")
                    }
                }
            }
        }
        return;
    }
    main_for(vec![Property {
        id: "C23",
        rule: "a batch with more than three names of the catalogue, or of documents with more than three pieces",
        assumptions: &[
            "trusts the installed Typst compiler",
            "labels that are referred to and bibliographies are not part of a document; lengths are not formulas",
            "names that are known not to evaluate in this version of Typst are only used by themselves",
        ],
        subs: vec![
            sub("names", 2_500, 80_000, each_name),
            sub("formulas", 2_000, 80_000, formulas),
            sub("documents", 2_500, 80_000, documents),
            sub("broken", 100, 300, broken),
        ],
    }]);
}
