//! Long texts: the work of a conversion grows with the length of its text, not faster.
//!
//! A text is made of many pieces side by side (nothing nests deeper as it gets longer)
//! and converted at three lengths.  What is measured is the processor time of the
//! thread, the least of several runs; the bound leaves a factor of four.
use mitex_spec_gen::DEFAULT_SPEC;
use vk::doc::*;
use vk::*;

fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

/// What is repeated, and what stands around it.
struct Text {
    head: String,
    pieces: Vec<String>,
    sep: &'static str,
    tail: String,
    /// stands for a name that is new in every piece
    names: bool,
}
fn letters(mut i: usize) -> String {
    let mut n = String::from("vk");
    loop {
        n.push((b'a' + (i % 26) as u8) as char);
        i /= 26;
        if i == 0 {
            return n;
        }
    }
}
impl Text {
    fn of(&self, n: usize) -> String {
        let mut t = self.head.clone();
        for i in 0..n {
            let p = &self.pieces[i % self.pieces.len()];
            if self.names {
                t.push_str(&p.replace("NAME", &letters(i)));
            } else {
                t.push_str(p);
            }
            t.push_str(self.sep);
        }
        t.push_str(&self.tail);
        t
    }
}
const CFG: Cfg = Cfg { len: 3, ..MATH };
fn math(s: &mut Src) -> String {
    let v = Gen { s, cfg: CFG }.list(2);
    let mut t = if s.chance(1, 3) { Tex::noisy(s) } else { Tex::plain() };
    t.list(&v);
    format!("{{{}}}", t.out)
}
fn inline(s: &mut Src) -> String {
    let v = no_prime(Gen { s, cfg: CFG }.tinline(2, 4));
    let mut t = if s.chance(1, 3) { Tex::noisy(s) } else { Tex::plain() };
    t.texts(&v);
    format!("{{{}}}", t.out)
}
fn blocks(s: &mut Src) -> String {
    let lists = s.chance(1, 2);
    let v = no_prime(Gen { s, cfg: CFG }.tdoc(2, 4, lists));
    let mut t = if s.chance(1, 3) { Tex::noisy(s) } else { Tex::plain() };
    t.texts(&v);
    t.out
}
fn some(s: &mut Src, f: impl Fn(&mut Src) -> String) -> Vec<String> {
    let n = s.range(1, 3);
    (0..n).map(|_| f(s)).collect()
}
fn text(head: &str, pieces: Vec<String>, sep: &'static str, tail: &str) -> Text {
    Text { head: head.into(), pieces, sep, tail: tail.into(), names: false }
}

fn documents(s: &mut Src) -> Text {
    match s.below(6) {
        0 => text("", some(s, blocks), "\n\n", ""),
        1 => {
            let sep = s.of(&[" ", "\n", "\n\n"]);
            text("", some(s, inline), sep, "")
        }
        2 => {
            let e = s.pick(&["itemize", "enumerate"]);
            let sep = s.of(&["\n", "\n\n"]);
            text(&format!("\\begin{{{e}}}\n"), some(s, |s| format!("\\item {}", inline(s))), sep, &format!("\\end{{{e}}}\n"))
        }
        3 => {
            let cell = |s: &mut Src| {
                let l = s.pick(&["", "", "\\hline ", "\\toprule "]);
                format!("{l}{} & {} \\\\", inline(s), inline(s))
            };
            text("\\begin{tabular}{l|c}\n", some(s, cell), "\n", "\\end{tabular}\n")
        }
        4 => {
            let fig = |s: &mut Src| {
                let l = s.pick(&["", "\\label{fig:NAME}"]);
                format!("\\begin{{figure}}\n\\includegraphics{{a.png}}\n\\caption{{{}}}{l}\n\\end{{figure}}", inline(s))
            };
            Text { names: true, ..text("", some(s, fig), "\n\n", "") }
        }
        _ => {
            let sec = |s: &mut Src| format!("{}{{{}}}\\label{{sec:NAME}}\n{}", s.pick(&["\\section", "\\subsection"]), inline(s), inline(s));
            Text { names: true, ..text("", some(s, sec), "\n\n", "") }
        }
    }
}
fn formulas(s: &mut Src) -> Text {
    match s.below(7) {
        0 => text("", some(s, |s| format!("${}$", math(s))), " ", ""),
        1 => text("$$", some(s, math), " ", "$$"),
        2 => {
            let e = s.pick(&["matrix", "aligned", "cases", "align*", "pmatrix"]);
            let row = |s: &mut Src| format!("{} & {} \\\\", math(s), math(s));
            text(&format!("$\\begin{{{e}}}"), some(s, row), "\n", &format!("\\end{{{e}}}$"))
        }
        3 => {
            let e = s.pick(&["matrix", "aligned"]);
            text(&format!("$\\begin{{{e}}}"), some(s, math), " & ", &format!("\\end{{{e}}}$"))
        }
        4 => text("$", some(s, |s| format!("{}_{}^{}", math(s), math(s), math(s))), " ", "$"),
        5 => text("$\\left(", some(s, |s| format!("\\frac{}{}", math(s), math(s))), " + ", "\\right)$"),
        _ => {
            let (h, t) = s.of(&[
                ("$\\mathrm{", "}$"),
                ("$\\sqrt{", "}$"),
                ("$\\text{", "}$"),
                ("$x_{", "}$"),
                ("$\\frac{a}{", "}$"),
                ("${", "}$"),
                ("$\\displaystyle ", "$"),
                ("$\\color{red} ", "$"),
                ("$", "\\over b$"),
                ("$a \\over ", "$"),
                ("$\\begin{matrix}", "\\over b & c\\end{matrix}$"),
                ("$\\sqrt[", "]{x}$"),
                ("$\\substack{", "}$"),
                ("$", "\\limits_a$"),
                ("$\\left.", "\\right]_b$"),
            ]);
            text(h, some(s, math), " ", t)
        }
    }
}
fn macros(s: &mut Src) -> Text {
    let m = s.chance(1, 2);
    let body = |s: &mut Src| if m { math(s) } else { inline(s) };
    let (o, c) = if m { ("$", "$") } else { ("", "") };
    match s.below(9) {
        // many definitions
        0 => {
            let def = |s: &mut Src| format!("\\newcommand{{\\NAME}}{{{}}}{o}\\NAME{{}}{c}", body(s));
            Text { names: true, ..text("", some(s, def), "\n", "") }
        }
        1 => {
            let d = s.pick(&["\\renewcommand", "\\newcommand", "\\providecommand"]);
            let def = |s: &mut Src| format!("{d}{{\\vka}}[1]{{#1{}}}{o}\\vka{{{}}}{c}", body(s), body(s));
            text("", some(s, def), "\n", "")
        }
        // one definition, many uses
        2 => {
            let n = s.range(0, 3);
            let b = body(s);
            let params: String = (1..=n).map(|i| format!("#{i} ")).collect();
            let def = format!("\\newcommand{{\\vka}}[{n}]{{{params}{b}}}{o}");
            let us = |s: &mut Src| format!("\\vka{}", (0..n).map(|_| format!("{{{}}}", body(s))).collect::<String>() + if n == 0 { "{}" } else { "" });
            text(&def, some(s, us), " ", c)
        }
        3 => {
            let def = format!("\\newcommand{{\\vka}}[2][{}]{{#1 #2}}{o}", body(s));
            let us = |s: &mut Src| if s.chance(1, 2) { format!("\\vka{{{}}}", body(s)) } else { format!("\\vka[{}]{{{}}}", body(s), body(s)) };
            text(&def, some(s, us), " ", c)
        }
        // a long body, a long argument
        4 => text("\\newcommand{\\vka}{", some(s, body), " ", &format!("}}{o}\\vka{{}}{c}")),
        5 => text(&format!("\\newcommand{{\\vka}}[1]{{(#1)}}{o}\\vka{{"), some(s, body), " ", &format!("}}{c}")),
        6 => {
            let def = format!("\\newenvironment{{vka}}{{{}}}{{{}}}{o}", body(s), body(s));
            if s.chance(1, 2) {
                text(&def, some(s, |s| format!("\\begin{{vka}}{}\\end{{vka}}", body(s))), " ", c)
            } else {
                text(&format!("{def}\\begin{{vka}}"), some(s, body), " ", &format!("\\end{{vka}}{c}"))
            }
        }
        7 => {
            let cond = s.pick(&["\\iftrue", "\\iffalse", "\\ifvkx", "\\iftypst"]);
            let set = s.pick(&["", "\\vkxtrue ", "\\vkxfalse "]);
            let plain = cond == "\\iftypst";
            let head = if cond == "\\ifvkx" { format!("\\newif\\ifvkx {set}{o}") } else { o.to_string() };
            if plain {
                return text("", some(s, |_| "\\iftypst #let a = 1 \\fi".to_string()), "\n", "");
            }
            text(&head, some(s, |s| format!("{cond} {} \\else {} \\fi", body(s), body(s))), " ", c)
        }
        _ => {
            let cond = s.pick(&["\\iftrue ", "\\iffalse "]);
            text(&format!("{o}{cond}"), some(s, body), " ", &format!("\\else a\\fi {c}"))
        }
    }
}
/// Lines of little, in all kinds of surroundings.
fn lines(s: &mut Src) -> Text {
    let line = |s: &mut Src| {
        let n = s.range(0, 3);
        (0..n)
            .map(|_| {
                s.pick(&[
                    "{}", "{a}", "a", "a ", " ", "%c", "%", "{", "}", "\\\\", "\\NAME", "\\label{NAME}", "\\newcommand{\\NAME}{x}", "\\iffalse a\\fi ", "$a$", "\\item ", "&", "\\textbf{a}", "\\hline",
                    "\\\\[1cm]", "[a]", "' ", "_a", "^{}", "\\alpha", "\\begin{center}a\\end{center}", "\\caption{a}", "\\newif\\ifNAME ", "\\color{red}",
                ])
            })
            .collect::<String>()
    };
    let mut pieces: Vec<String> = some(s, line);
    // side by side: what a piece opens it closes
    for p in pieces.iter_mut() {
        let mut open = 0usize;
        let mut q = String::new();
        let comment = p.contains('%');
        for c in p.chars() {
            match c {
                '{' => open += 1,
                '}' if open == 0 => q.push('{'),
                '}' => open -= 1,
                _ => {}
            }
            q.push(c);
        }
        if comment && open > 0 {
            q.push('\n');
        }
        q.push_str(&"}".repeat(open));
        if q.contains("\\color") {
            q = format!("{{{q}\n}}");
        }
        *p = q;
    }
    let (h, t) = s.of(&[
        ("", ""),
        ("{", "}"),
        ("\\color{red} ", ""),
        ("\\textcolor{red}{", "}"),
        ("\\textbf{", "}"),
        ("\\begin{itemize}\n", "\\end{itemize}"),
        ("\\begin{quote}\n", "\\end{quote}"),
        ("\\begin{tabular}{ll}\n", "\\end{tabular}"),
        ("\\begin{figure}\n", "\\end{figure}"),
        ("\\begin{table}\n", "\\end{table}"),
        ("$", "$"),
        ("$\\begin{aligned}\n", "\\end{aligned}$"),
        ("$\\text{", "}$"),
        ("\\section{", "}"),
        ("\\iffalse ", "\\fi "),
        ("\\newcommand{\\vq}{", "}\\vq "),
    ]);
    Text { names: true, ..text(h, pieces, "\n", t) }
}
fn runs(s: &mut Src) -> Text {
    let p = s.pick(&["a", "1", ".", ",", "-", "!", " ", "\n", "a ", "a\n\n", "~", "\\ ", "\\\\", "\\%", "\\{", "%c\n", "% ", "λ", "/", "*", "=", "+", "(", "(a)", "[a]", "|", "<", "\"", "`", "\t", "\\,", "\\&", "$a$ ", "\\alpha ", "{}", "{a}"]);
    let p: String = (0..s.range(1, 3)).map(|_| p).collect();
    let (h, t) = s.of(&[("", ""), ("$x", "x$"), ("\\textbf{", "}"), ("%", "\n"), ("$\\text{", "}$"), ("\\section{", "}"), ("{", "}"), ("\\begin{center}", "\\end{center}")]);
    text(h, vec![p], "", t)
}

fn check(t: Text, o: &mut Obs) -> Res {
    o.show(t.of(t.pieces.len().max(2)));
    let one = t.of(t.pieces.len()).len() as f64 / t.pieces.len() as f64;
    let n = ((6000.0 / one) as usize).max(8);
    o.nontrivial = n >= 40;
    if dry() {
        return Ok(());
    }
    let spec = DEFAULT_SPEC.clone();
    let (a, b, c) = (t.of(n), t.of(4 * n), t.of(16 * n));
    let once = |x: &str| -> Result<f64, String> {
        guarded(|| {
            let at = cpu();
            let r = mitex::convert_text(x, Some(spec.clone()));
            let took = cpu() - at;
            drop(r);
            took
        })
    };
    let least = |x: &str, k: usize| -> Result<f64, String> {
        let mut m = once(x)?;
        for _ in 1..k {
            m = m.min(once(x)?);
        }
        Ok(m)
    };
    o.label_if(mitex::convert_text(&a, Some(spec.clone())).is_err(), "fails");
    // the middle of several runs, and never less than what a clock tells apart
    let base = |k: usize| -> Result<f64, String> {
        let mut v = (0..k).map(|_| once(&a)).collect::<Result<Vec<_>, _>>()?;
        v.sort_by(|a, b| a.total_cmp(b));
        Ok(v[k / 2].max(3e-4))
    };
    let small = base(3)?;
    let mid = once(&b)?;
    if mid < 10.0 * small || least(&b, 3)? < 10.0 * base(7)? {
        if once(&c)? < 64.0 * small {
            return Ok(());
        }
    } else if mid > 1.0 {
        // no need to wait for the long one
        return Err(format!("four times the text ({} bytes) takes {:.0} times as long", b.len(), mid / small));
    }
    let small = base(9)?;
    let long = least(&c, 3)?;
    if long < 64.0 * small {
        return Ok(());
    }
    Err(format!("the text takes longer than in proportion to its length: {} bytes {:.1} ms, {} bytes {:.1} ms", a.len(), small * 1e3, c.len(), long * 1e3))
}

/// Constructs in each other; nothing of it is doubled by a macro.
const IN_MATH: &[(&str, &str)] = &[
    ("{", "}"),
    ("\\frac{", "}{b}"),
    ("\\frac{a}{", "}"),
    ("\\frac a", ""),
    ("\\sqrt{", "}"),
    ("\\sqrt[", "]{a}"),
    ("\\sqrt[a]{", "}"),
    ("a_{", "}"),
    ("a^{", "}_b"),
    ("{", "}'_c"),
    ("\\left(", "\\right)"),
    ("\\left[a", "\\right.^2"),
    ("\\begin{matrix}", "& a\\\\ b\\end{matrix}"),
    ("\\begin{cases}a & ", "\\end{cases}"),
    ("\\begin{aligned}a &= ", "\\\\ \\end{aligned}"),
    ("\\begin{array}{c}", "\\end{array}"),
    ("\\hat{", "}"),
    ("\\mathrm{", "}"),
    ("\\text{a $", "$ b}"),
    ("\\color{red}", ""),
    ("{\\displaystyle ", "}"),
    ("\\displaystyle ", ""),
    ("{", "\\over b}"),
    ("{a\\over ", "}"),
    ("\\substack{a\\\\", "}"),
    ("\\overset{", "}{=}"),
    ("\\sum\\limits_{", "}"),
    ("{", "}\\limits^b"),
    ("\\textcolor{red}{", "}"),
    ("\\colorbox{red}{$", "$}"),
    ("\\operatorname{", "}"),
    ("\\vp{", "}"),
    ("\\vp{}\\vp", ""),
    ("\\vd[", "]{a}"),
    ("\\vd{", "}"),
    ("\\vd[a]{", "}"),
    ("\\begin{ve}", "\\end{ve}"),
    ("\\iftrue ", "\\fi "),
    ("\\iffalse a\\else ", "\\fi "),
    ("\\iffalse ", "\\fi a"),
    ("a' ", ""),
    ("[", "]"),
    ("(", ")"),
];
const IN_TEXT: &[(&str, &str)] = &[
    ("{", "}"),
    ("\\textbf{", "}"),
    ("\\emph{a ", "} b"),
    ("\\textcolor{red}{", "}"),
    ("\\color{red} ", ""),
    ("{\\color{red} ", "} a"),
    ("\\colorbox{red}{", "}"),
    ("$\\text{", "}$"),
    ("\\begin{itemize}\n\\item ", "\n\\end{itemize}\n"),
    ("\\begin{enumerate}\n\\item a\n\\item ", "\n\\end{enumerate}\n"),
    ("\\begin{quote}\n", "\n\\end{quote}\n"),
    ("\\begin{center}\n", "\n\\end{center}\n"),
    ("\\begin{tabular}{l}\n", "\\\\\n\\end{tabular}"),
    ("\\begin{figure}\n", "\\caption{a}\n\\end{figure}\n"),
    ("\\begin{figure}\n\\caption{", "}\n\\end{figure}\n"),
    ("\\vp{", "}"),
    ("\\vd[", "]{a}"),
    ("\\vd{", "}"),
    ("\\begin{ve}", "\\end{ve}"),
    ("\\iftrue ", "\\fi "),
    ("\\iffalse a\\else ", "\\fi "),
    ("\\iffalse ", "\\fi a"),
    ("\\section{", "}"),
    ("\\newcommand{\\vx}{", "}\\vx "),
];
const DEFS: &str = "\\newcommand{\\vp}[1]{(#1)}\\newcommand{\\vd}[2][x]{#1 #2}\\newenvironment{ve}{(}{)}";

fn nested(s: &mut Src, o: &mut Obs) -> Res {
    let m = s.chance(3, 5);
    let all = if m { IN_MATH } else { IN_TEXT };
    let k = s.range(1, 3);
    let wraps: Vec<(&str, &str)> = (0..k).map(|_| s.of(all)).collect();
    let blanks = s.pick(&["", " ", "\n", "%c\n"]);
    let text = |d: usize| {
        let mut t = String::from(if m { "$" } else { "" });
        for i in 0..d {
            t.push_str(wraps[i % k].0);
            t.push_str(blanks);
        }
        t.push('a');
        for i in (0..d).rev() {
            t.push_str(blanks);
            t.push_str(wraps[i % k].1);
        }
        if m {
            t.push('$');
        }
        t
    };
    o.show(text(k));
    o.nontrivial = k > 1;
    if dry() {
        return Ok(());
    }
    // a few hundred microseconds, if nothing is done twice at each level
    for d in [6, 9, 12, 16, 20, 24, 30, 36, 42] {
        let src = format!("{DEFS}{}", text(d));
        let mut took = f64::MAX;
        for _ in 0..4 {
            let r = guarded(|| {
                let at = cpu();
                let r = mitex::convert_text(&src, Some(DEFAULT_SPEC.clone()));
                (cpu() - at, r.is_err())
            })?;
            took = took.min(r.0);
            o.label_if(d == 6 && r.1, "nested fails");
            if took < 0.05 {
                break;
            }
        }
        if took >= 0.2 {
            return Err(format!("{} bytes, nested {d} times, take {:.1} ms", src.len(), took * 1e3));
        }
    }
    Ok(())
}

fn main() {
    main_for(vec![Property {
        id: "C30",
        rule: "forty pieces or more in the shortest of the three texts",
        assumptions: &[
            "for constructs within each other only a time that multiplies with every level counts (some tens of levels must convert at once)",
            "the processor time of a thread tells a quadratic growth (256 times) from a linear one (16 times)",
        ],
        subs: vec![
            sub("documents", 2500, 20_000, |s, o| check(documents(s), o)),
            sub("formulas", 2500, 20_000, |s, o| check(formulas(s), o)),
            sub("macros", 3000, 25_000, |s, o| check(macros(s), o)),
            sub("lines", 3000, 60_000, |s, o| check(lines(s), o)),
            sub("nested", 20_000, 400_000, nested),
            sub("runs", 1500, 4_000, |s, o| check(runs(s), o)),
        ],
    }]);
}
