//! C05 C06 C07 C08: macros, their definitions, conditionals, scopes.
use mitex_lexer::snapshot_map::SnapshotMap;
use mitex_lexer::{Lexer, MacroEngine, MacroifyStream, Token};
use std::collections::BTreeMap;
use vk::*;

// ------------------------------------------------------------- written twice
/// A piece of text written with macros and conditionals (`m`), and the same with
/// everything written out by hand (`e`).
#[derive(Clone, Debug, Default)]
struct Frag {
    m: String,
    e: Vec<P>,
    /// about how long it gets, and how many times each argument stands in it, when all
    /// is written out
    w: [usize; 10],
}
#[derive(Clone, Debug)]
enum P {
    S(String),
    Arg(usize),
}
impl Frag {
    fn both(&mut self, w: &str) {
        self.m(w);
        self.e.push(P::S(w.to_string()));
    }
    fn m(&mut self, w: &str) {
        self.m.push_str(w);
        self.w[0] += w.len();
        for k in 1..10 {
            self.w[k] += w.matches(&format!("#{k}")).count();
        }
    }
    fn e(&mut self, w: &str) {
        self.e.push(P::S(w.to_string()));
    }
    fn add(&mut self, f: Frag) {
        self.m.push_str(&f.m);
        (0..10).for_each(|k| self.w[k] += f.w[k]);
        self.e.extend(f.e);
    }
}
fn ends_in_command(w: &str) -> bool {
    let t = w.trim_end_matches(|c: char| c.is_ascii_alphabetic() || c == '@');
    t.ends_with('\\') && t.len() < w.len() && !t.ends_with("\\\\")
}
fn flat(e: &[P]) -> String {
    let mut out = String::new();
    for p in e {
        let P::S(w) = p else { panic!("argument left over") };
        if w.starts_with(|c: char| c.is_ascii_alphabetic() || c == '@') && ends_in_command(&out) {
            out.push(' ');
        }
        out.push_str(w);
    }
    out
}
fn subst(e: &[P], args: &[Vec<P>]) -> Vec<P> {
    let mut out = vec![];
    for p in e {
        match p {
            P::S(_) => out.push(p.clone()),
            P::Arg(k) => out.extend(args[*k].iter().cloned()),
        }
    }
    out
}

#[derive(Clone, Debug)]
struct Def {
    name: String,
    nargs: usize,
    opt: Option<Frag>,
    body: Frag,
    end: Option<Frag>,
    cells: bool,
}

struct G<'a> {
    s: &'a mut Src,
    defs: Vec<Def>,
    text: bool,
    /// conditionals: none, or also generate them
    conds: bool,
    uses: usize,
    nested: usize,
    taken: usize,
    dropped: usize,
    in_arg: usize,
    /// the document is text: blanks at the beginning of a line are significant
    /// after a conditional and not otherwise
    doc_text: bool,
    /// how many counts may be large
    big: usize,
    large: bool,
}
const CMD_NAMES: &[&str] = &["foo", "bar", "baz", "R", "myvec", "x", "Foo", "foobar", "a@b"];
const ENV_NAMES: &[&str] = &["boxed", "myenv", "thm", "foo*", "E", "my@env"];
const MWORDS: &[&str] = &["x", "a", "b", "12", "xyz", "3", "!", "?", "é", "ab", "中", "|", "f", "k2", "0"];
const TWORDS: &[&str] = &["x", "word", "some", "text", "b", "é", "中文", "k2", "abc", "n"];

impl<'a> G<'a> {
    fn new(s: &'a mut Src, text: bool, conds: bool) -> Self {
        G { s, defs: vec![], text, conds, uses: 0, nested: 0, taken: 0, dropped: 0, in_arg: 0, doc_text: text, big: 0, large: false }
    }
    /// a count, large at times
    fn many(&mut self, min: usize, max: usize) -> usize {
        if self.big > 0 && self.s.chance(1, 4) {
            self.big -= 1;
            let top = self.s.of(&[8, 12, 20, 70, 200]);
            return self.s.range(max + 1, top.max(max + 1));
        }
        self.s.range(min, max)
    }
    fn frag(&mut self, d: usize, np: usize) -> Frag {
        let mut f = Frag::default();
        let n = if d == 0 { 1 } else { self.many(0, if d >= 2 { 3 } else { 2 }) };
        for _ in 0..n {
            self.item(d, np, &mut f);
        }
        f
    }
    fn group(&mut self, d: usize, np: usize, f: &mut Frag) {
        f.both("{");
        let g = self.frag(d, np);
        f.add(g);
        f.both("}");
    }
    fn item(&mut self, d: usize, np: usize, f: &mut Frag) {
        if np > 0 && self.s.chance(2, 5) {
            let k = self.s.below(np);
            f.m(&format!("#{}", k + 1));
            f.e.push(P::Arg(k));
            return;
        }
        if self.conds && d > 0 && self.s.chance(1, 4) {
            return self.cond(d, np, f);
        }
        if !self.defs.is_empty() && (if d > 0 { self.s.chance(2, 5) } else { self.s.chance(1, 8) }) {
            return self.use_macro(d, np, f);
        }
        if self.text {
            self.text_item(d, np, f)
        } else {
            self.math_item(d, np, f)
        }
    }
    fn text_item(&mut self, d: usize, np: usize, f: &mut Frag) {
        match self.s.weighted(&[8, 3, if d > 0 { 2 } else { 0 }, if d > 0 { 2 } else { 0 }, if d > 0 { 1 } else { 0 }, 1]) {
            0 => {
                let w = self.s.pick(TWORDS);
                f.both(w)
            }
            1 => f.both(" "),
            2 => {
                let c = self.s.pick(&["\\textbf", "\\emph", "\\textit", "\\underline"]);
                f.both(c);
                self.group(d - 1, np, f);
            }
            3 => {
                f.both("$");
                self.text = false;
                // a formula needs content
                f.both("x");
                let g = self.frag(d - 1, np);
                f.add(g);
                self.text = true;
                f.both("$ ");
            }
            4 => self.group(d - 1, np, f),
            _ => {
                let w = self.s.pick(&["\\% ", "\\$ ", "\\& ", "%c\nw"]);
                f.both(w)
            }
        }
    }
    fn math_item(&mut self, d: usize, np: usize, f: &mut Frag) {
        let deep = if d > 0 { 2 } else { 0 };
        match self.s.weighted(&[8, 4, 3, deep, deep, deep, deep, deep, deep, deep, 1, 1, 1]) {
            0 => {
                let w = self.s.pick(MWORDS);
                f.both(w)
            }
            1 => {
                let w = self.s.pick(&["\\alpha ", "\\sum ", "\\infty ", "\\{ ", "\\, ", "\\int "]);
                f.both(w)
            }
            2 => f.both(" "),
            3 => {
                let c = self.s.pick(&["\\frac", "\\binom"]);
                f.both(c);
                for _ in 0..2 {
                    if self.s.chance(1, 4) {
                        f.both(" ");
                        self.item(0, np, f);
                    } else {
                        self.group(d - 1, np, f)
                    }
                }
            }
            4 => {
                let c = self.s.pick(&["\\hat", "\\mathbf", "\\sqrt", "\\sqrt[3]", "\\overline"]);
                f.both(c);
                self.group(d - 1, np, f)
            }
            5 => {
                f.both("x");
                let c = self.s.pick(&["_", "^"]);
                f.both(c);
                if self.s.chance(1, 3) {
                    self.item(0, np, f)
                } else {
                    self.group(d - 1, np, f)
                }
                f.both("{}");
            }
            6 => {
                let (l, r) = self.s.of(&[("(", ")"), ("[", "]"), ("\\{ ", "\\} "), (".", "|")]);
                f.both("\\left");
                f.both(l);
                let g = self.frag(d - 1, np);
                f.add(g);
                f.both("\\right");
                f.both(r);
            }
            7 => {
                let e = self.s.pick(&["matrix", "pmatrix", "aligned", "cases"]);
                f.both(&format!("\\begin{{{e}}}"));
                let g = self.cells(d - 1, np);
                f.add(g);
                f.both(&format!("\\end{{{e}}}"));
            }
            8 => {
                let c = self.s.pick(&["\\text", "\\mathrm", "\\operatorname"]);
                if c == "\\text" {
                    f.both("\\text{");
                    self.text = true;
                    let g = self.frag(d - 1, np);
                    f.add(g);
                    self.text = false;
                    f.both("}");
                } else {
                    f.both(c);
                    self.group(d - 1, np, f);
                }
            }
            9 => self.group(d - 1, np, f),
            10 => f.both(if self.doc_text { "%c\nx" } else { "%c\n" }),
            11 => {
                let w = self.s.pick(&["(", ")", ",", "/", "'", "*", ";"]);
                f.both(w)
            }
            _ => {
                let w = self.s.pick(&["\n", "~", "\\ "]);
                f.both(w)
            }
        }
    }
    fn cells(&mut self, d: usize, np: usize) -> Frag {
        let mut f = self.frag(d, np);
        for _ in 0..self.s.below(4) {
            let w = self.s.pick(&["&", "\\\\ ", " & "]);
            f.both(w);
            let g = self.frag(d, np);
            f.add(g);
        }
        f
    }
    fn use_macro(&mut self, d: usize, np: usize, f: &mut Frag) {
        let i = self.s.below(self.defs.len());
        let def = self.defs[i].clone();
        if def.end.is_some() && (self.text || d == 0) {
            // environments of this generator are formula environments
            let w = self.s.pick(TWORDS);
            return f.both(w);
        }
        let start = (f.m.len(), f.e.len(), f.w);
        self.uses += 1;
        if self.in_arg > 0 {
            // in an argument or the body of another macro
            self.nested += 1;
        }
        let text = self.text;
        f.m(&if def.end.is_some() { format!("\\begin{{{}}}", def.name) } else { format!("\\{}", def.name) });
        let mut args: Vec<Vec<P>> = vec![];
        let mut weights: Vec<[usize; 10]> = vec![];
        let mut tail = Frag::default();
        let mut after_name = def.end.is_none();
        let mut left = def.nargs;
        if let Some(o) = &def.opt {
            left -= 1;
            if self.s.chance(1, 2) {
                self.in_arg += 1;
                let a = self.frag(d.saturating_sub(1), np);
                self.in_arg -= 1;
                if self.s.chance(1, 6) {
                    f.m(" ");
                }
                if a.m.contains([']', '#']) {
                    f.m(&format!("[{{{}}}]", a.m));
                    let mut e = vec![P::S("{".into())];
                    e.extend(a.e.clone());
                    e.push(P::S("}".into()));
                    weights.push(a.w);
                    args.push(e);
                } else {
                    f.m(&format!("[{}]", a.m));
                    weights.push(a.w);
                    args.push(a.e);
                }
                after_name = false;
            } else {
                weights.push(o.w);
                args.push(o.e.clone());
                if left == 0 {
                    // whatever follows must not be a bracket
                    tail.both("{}");
                }
            }
        }
        if def.nargs == 0 && def.end.is_none() {
            let w = self.s.pick(&[" ", "{}"]);
            tail.both(if text { "{}" } else { w });
        }
        for k in 0..left {
            let last = k + 1 == left;
            match self.s.weighted(&[if d > 0 { 6 } else { 1 }, 3, 1]) {
                0 => {
                    self.in_arg += 1;
                    let a = self.frag(d.saturating_sub(1), np);
                    self.in_arg -= 1;
                    if self.s.chance(1, 6) {
                        let w = self.s.pick(&[" ", "\n", "%c\n"]);
                        f.m(w);
                    }
                    f.m(&format!("{{{}}}", a.m));
                    weights.push(a.w);
                    args.push(a.e);
                    after_name = false;
                }
                1 => {
                    let c = self.s.pick(&["x", "a", "7", "é", "中", "b", "!"]);
                    // letters may not follow a name or a parameter directly
                    if (after_name || f.m.ends_with(|c: char| c.is_ascii_alphabetic() || c == '@')) && c.as_bytes()[0].is_ascii_alphabetic() && ends_in_command(&f.m)
                        || self.s.chance(1, 5)
                    {
                        f.m(" ");
                    }
                    f.m(c);
                    weights.push([4, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
                    args.push(vec![P::S(c.into())]);
                    after_name = false;
                }
                _ => {
                    let c = self.s.pick(if text { &["\\%", ","] } else { &["\\alpha ", "(", ",", "\\, ", "*"] });
                    f.m(c);
                    weights.push([4, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
                    args.push(vec![P::S(c.trim_end().into())]);
                    if last && c.ends_with(' ') {
                        tail.e(" ");
                    }
                    after_name = false;
                }
            }
        }
        if let Some(end) = &def.end {
            // what follows the arguments is not read as one
            f.m(&tail.m);
            f.m("{}");
            f.e.extend(subst(&def.body.e, &args));
            let end_args = args;
            f.e.extend(std::mem::take(&mut tail).e);
            f.e("{}");
            self.in_arg += 1;
            let body = if def.cells { self.cells(d - 1, np) } else { self.frag(d - 1, np) };
            self.in_arg -= 1;
            f.m(&body.m);
            f.m(&format!("\\end{{{}}}", def.name));
            (0..10).for_each(|k| f.w[k] += body.w[k]);
            f.e.extend(body.e);
            f.e.extend(subst(&end.e, &end_args));
        } else {
            f.e.extend(subst(&def.body.e, &args));
        }
        f.add(tail);
        let times = |j: usize| def.body.w[j] + def.end.as_ref().map_or(0, |e| e.w[j]);
        f.w[0] += times(0);
        for (j, a) in weights.iter().enumerate() {
            (0..10).for_each(|k| f.w[k] += times(j + 1) * a[k]);
        }
        if self.large && f.w.iter().sum::<usize>() > start.2.iter().sum::<usize>() + 20_000 {
            // (too long when written out)
            f.m.truncate(start.0);
            f.e.truncate(start.1);
            f.w = start.2;
            f.both("{long}");
        }
    }
    fn blank(&mut self) -> String {
        if self.s.chance(1, 8) {
            self.s.pick(&[" ", "\n", "%c\n", " %c\n "]).to_string()
        } else {
            String::new()
        }
    }
    fn content(&mut self, np: usize) -> Frag {
        self.frag(2, np)
    }
    /// Makes a definition and its text.
    fn define(&mut self) -> String {
        self.in_arg += 1;
        let r = self.define_inner();
        self.in_arg -= 1;
        r
    }
    fn define_inner(&mut self) -> String {
        let env = self.s.chance(1, 4) && !self.text;
        let used = |n: &str, ds: &[Def]| ds.iter().any(|d| d.name == n);
        let names = if env { ENV_NAMES } else { CMD_NAMES };
        let free: Vec<&str> = names.iter().copied().filter(|n| !used(n, &self.defs)).collect();
        if free.is_empty() {
            return String::new();
        }
        let name = if self.large && self.s.chance(1, 2) {
            // many macros, of long and similar names
            let n = self.many(1, 2);
            format!("zq{}", (0..n).map(|_| self.s.pick(&["a", "b", "ab", "A"])).collect::<String>())
        } else {
            self.s.pick(&free).to_string()
        };
        // `\newenvironment{foo*}` names are words and `*`; keep to plain words there
        let name = if env { name.replace(['*', '@'], "s") } else { name };
        if used(&name, &self.defs) {
            return String::new();
        }
        let nargs = match self.s.weighted(&[4, 4, 2, 1, 1]) {
            n @ 0..=3 => n,
            _ => self.s.range(4, 9),
        };
        let opt = (nargs > 0 && self.s.chance(1, 3)).then(|| {
            let mut f = self.frag(1, 0);
            if f.m.contains(']') {
                f = Frag::default();
                f.both("d");
            }
            f
        });
        let (body, end, cells) = if env {
            let (b, e, cells) = self.s.of(&[
                ("", "", false),
                ("\\begin{pmatrix}", "\\end{pmatrix}", true),
                ("\\left(", "\\right)", false),
                ("\\begin{aligned}", "\\end{aligned}", true),
                ("\\begin{matrix}", "\\end{matrix}", true),
            ]);
            let mut body = self.content(nargs);
            body.both(b);
            let mut end = Frag::default();
            if cells {
                end.both(e);
                let g = self.content(nargs);
                end.add(g);
            } else {
                let g = self.content(nargs);
                end.add(g);
                end.both(e);
            }
            (body, Some(end), cells)
        } else {
            (self.content(nargs), None, false)
        };
        let head = if env {
            self.s.pick(&["newenvironment", "newenvironment*"])
        } else {
            self.s.pick(&[
                "newcommand",
                "newcommand*",
                "DeclareRobustCommand",
                "DeclareRobustCommand*",
                "providecommand",
                "providecommand*",
            ])
        };
        let mut t = format!("\\{head}{}{{{}", self.blank(), self.blank());
        if !env {
            t.push('\\');
        }
        t.push_str(&name);
        t.push_str(&format!("{}}}", self.blank()));
        if nargs > 0 || self.s.chance(1, 8) {
            t.push_str(&format!("{}[{}{nargs}{}]", self.blank(), self.blank(), self.blank()));
            if let Some(o) = &opt {
                t.push_str(&format!("{}[{}]", self.blank(), o.m));
            }
        }
        t.push_str(&format!("{}{{{}}}", self.blank(), body.m));
        if let Some(e) = &end {
            t.push_str(&format!("{}{{{}}}", self.blank(), e.m));
        }
        self.defs.push(Def { name, nargs, opt, body, end, cells });
        t
    }
    // ------------------------------------------------------------- conditionals
    fn cond(&mut self, d: usize, np: usize, f: &mut Frag) {
        let kind = self.s.weighted(&[3, 3, 1]);
        let has_else = self.s.chance(1, 2);
        match kind {
            0 => {
                f.m("\\iftrue");
                f.both(" ");
                let g = self.frag(d - 1, np);
                f.add(g);
                if has_else {
                    f.m("\\else ");
                    let j = self.junk(2, np);
                    f.m(&j);
                    self.dropped += 1;
                }
                f.m("\\fi");
                f.both(" ");
                self.taken += 1;
            }
            1 => {
                f.m("\\iffalse ");
                let j = self.junk(2, np);
                f.m(&j);
                self.dropped += 1;
                if has_else {
                    f.m("\\else");
                    f.both(" ");
                    let g = self.frag(d - 1, np);
                    f.add(g);
                    self.taken += 1;
                }
                f.m("\\fi");
                f.both(" ");
            }
            _ => {
                f.both("\\iftypst ");
                let n = self.s.range(0, 3);
                for _ in 0..n {
                    let w = self.s.pick(&["#let x = 1", " sum_(i=0)^n ", "a & b", "*b*", "\"s\"", if self.doc_text { "+" } else { "$" }, "[x]", "f(x, y)", "\n", "{a}", "~", "'", "/* c */"]);
                    f.both(w);
                }
                if has_else {
                    f.m("\\else ");
                    let j = self.junk(2, np);
                    f.m(&j);
                    self.dropped += 1;
                }
                f.both("\\fi ");
                self.taken += 1;
            }
        }
    }
    /// Content of a branch that is not taken: anything with balanced conditionals.
    fn junk(&mut self, d: usize, np: usize) -> String {
        let mut o = String::new();
        for _ in 0..self.many(0, 5) {
            match self.s.weighted(&[6, 4, 3, 4, if np > 0 { 2 } else { 0 }, 2]) {
                0 => {
                    let w = self.s.pick(&["x", " ", "word", "é", "&", "\\\\ ", "_", "^", "'", "\n", "%c\\fi\n", "\\alpha ", "\\unknowncmd ", "\\frac ", "#", "\\$", "~"]);
                    o.push_str(w);
                }
                1 if d > 0 => {
                    let k = self.s.pick(&["\\iftrue ", "\\iffalse ", "\\iftypst ", "\\ifx ", "\\ifnum ", "\\ifmmode "]);
                    o.push_str(k);
                    o.push_str(&self.junk(d - 1, np));
                    if self.s.chance(1, 2) {
                        o.push_str("\\else ");
                        o.push_str(&self.junk(d - 1, np));
                    }
                    o.push_str("\\fi ");
                }
                2 => {
                    // definitions without effect
                    let n = self.s.pick(&["foo", "bar", "alpha", "frac", "x", "sum"]);
                    let w = format!(
                        "{}{{{}}}",
                        self.s.pick(&["\\newcommand", "\\renewcommand", "\\providecommand", "\\newcommand*"]).to_string() + &format!("{{\\{n}}}"),
                        self.s.pick(&["", "WRONG", "x y", "\\foo "])
                    );
                    o.push_str(&w);
                    if self.s.chance(1, 4) {
                        o.push_str("\\newenvironment{matrix}{W}{R}");
                    }
                }
                3 => {
                    // anything unbalanced, but only where braces do not delimit an argument
                    if self.in_arg == 0 && np == 0 {
                        let w = self.s.pick(&["{", "}", "$", "[", "\\left(", "\\begin{matrix}", "\\end{cases}", "\\right]", "$$", "}}", "\\begin", "\\begin{myenv}", "\\end{E}"]);
                        o.push_str(w);
                    } else {
                        o.push_str("{y}");
                    }
                }
                4 => o.push_str("#1"),
                _ => {
                    if let Some(i) = (!self.defs.is_empty()).then(|| self.s.below(self.defs.len())) {
                        let n = &self.defs[i].name;
                        o.push_str(&if self.defs[i].end.is_some() && self.in_arg > 0 {
                            format!("\\begin{{{n}}}\\end{{{n}}}")
                        } else if self.defs[i].end.is_some() {
                            format!("\\begin{{{n}}}")
                        } else { format!("\\{n} ") });
                    } else {
                        o.push_str("\\foo ");
                    }
                }
            }
        }
        o
    }
    /// A whole document: definitions and their uses.
    fn document(&mut self) -> Frag {
        let mut f = Frag::default();
        if self.s.chance(1, 8) {
            // somewhere around an internal page boundary
            for _ in 0..self.s.range(70, 180) {
                f.both("a ");
            }
        }
        let n = if self.large { self.s.range(2, 40) } else { self.s.range(1, 5) };
        for _ in 0..n {
            for _ in 0..self.s.small(2) {
                if self.defs.len() < if self.large { 40 } else { 5 } {
                    let t = self.define();
                    if self.text && self.s.chance(1, 2) && (f.m.is_empty() || f.m.ends_with('\n')) {
                        f.m(&format!("{t}\n"));
                    } else {
                        f.m(&t);
                    }
                }
            }
            self.item(3, 0, &mut f);
            if self.text && self.s.chance(1, 4) {
                f.both("w\n");
            } else if self.s.chance(1, 2) {
                f.both(" ");
            }
        }
        f
    }
}

fn collapse(w: &str) -> String {
    w.split([' ', '\n', '\t', '\r']).filter(|p| !p.is_empty()).collect::<Vec<_>>().join(" ")
}
/// Drops blanks in formulas, where they are insignificant: atoms come with their own.
fn unblank(text: bool, w: &str) -> String {
    let w = collapse(w);
    if !text {
        return w.replace(' ', "");
    }
    let (mut out, mut math, mut prev) = (String::new(), false, ' ');
    for c in w.chars() {
        if c == '$' && prev != '\\' {
            math = !math;
        }
        if !(math && c == ' ') {
            out.push(c);
        }
        prev = if prev == '\\' { ' ' } else { c };
    }
    out
}
fn conv(text: bool, w: &str) -> Result<String, String> {
    if text {
        mitex::convert_text(w, None)
    } else {
        mitex::convert_math(w, None)
    }
}
fn equal(text: bool, m: &str, e: &str, what: &str) -> Result<bool, String> {
    let a = conv(text, m);
    let b = conv(text, e);
    match (&a, &b) {
        (Ok(a), Ok(b)) if collapse(a) == collapse(b) => Ok(true),
        (Ok(a), Ok(b)) if unblank(text, a) == unblank(text, b) => Ok(true),
        (Err(_), Err(_)) => Ok(false),
        _ => Err(format!("{what} {e:?}\n  converts to {b:?}\n  but with macros/conditionals to {a:?}")),
    }
}

/// Macros that define macros.  Their own arguments are in force at once, those of
/// the macro being defined are kept for it with `\mitexrecurse`.
enum R {
    Word(&'static str),
    Arg(usize, usize),
    Wrap(&'static [&'static str], Vec<Vec<R>>),
}
impl R {
    /// the first level that has an argument in it
    fn level(&self) -> usize {
        match self {
            R::Word(_) => usize::MAX,
            R::Arg(l, _) => *l,
            R::Wrap(_, v) => v.iter().flatten().map(R::level).min().unwrap_or(usize::MAX),
        }
    }
    fn value(&self, args: &[Vec<&str>], o: &mut String) {
        match self {
            R::Word(w) => o.push_str(w),
            R::Arg(l, k) => o.push_str(args[*l][*k]),
            R::Wrap(w, v) => {
                for (i, w) in w.iter().enumerate() {
                    o.push_str(w);
                    v.get(i).into_iter().flatten().for_each(|r| r.value(args, o));
                }
            }
        }
        o.push(' ');
    }
}
struct Makers<'a> {
    s: &'a mut Src,
    /// number of arguments of each level
    nargs: Vec<usize>,
    named: Vec<bool>,
    kept: usize,
}
impl Makers<'_> {
    fn piece(&mut self, d: usize) -> R {
        match self.s.weighted(&[3, 4, if d > 0 { 2 } else { 0 }]) {
            0 => R::Word(self.s.pick(&["x", "ab", "1", "\\alpha", "{y}", "+", "\\sum"])),
            1 => {
                let l = self.s.below(self.nargs.len());
                // the first argument may be the name of the next macro
                let from = if l + 1 < self.nargs.len() && self.named[l + 1] { 1 } else { 0 };
                if self.nargs[l] <= from {
                    return R::Word("z");
                }
                R::Arg(l, self.s.range(from, self.nargs[l] - 1))
            }
            _ => {
                let w: &'static [&'static str] =
                    self.s.of(&[&["{", "}"][..], &["\\frac{", "}{", "}"], &["\\left(", "\\right)"], &["\\hat{", "}"], &["\\begin{matrix}", "&", "\\end{matrix}"]]);
                let v = (1..w.len()).map(|_| self.pieces(d - 1)).collect();
                R::Wrap(w, v)
            }
        }
    }
    fn pieces(&mut self, d: usize) -> Vec<R> {
        (0..self.s.range(1, 3)).map(|_| self.piece(d)).collect()
    }
    /// with `kept` levels already taken away by \mitexrecurse
    fn write(&mut self, r: &R, kept: usize, o: &mut String) {
        let level = r.level().min(self.nargs.len());
        let must = matches!(r, R::Arg(..)) && level > kept;
        if level > kept && (must || self.s.chance(1, 6)) {
            self.kept += 1;
            let k = kept + 1;
            let mut inner = String::new();
            self.write(r, k, &mut inner);
            let inner = inner.trim_end();
            let one = inner.starts_with('#') && inner.len() == 2 || matches!(inner, "x" | "1" | "+" | "\\alpha" | "\\sum");
            o.push_str("\\mitexrecurse");
            if one && self.s.chance(1, 3) {
                o.push_str(if inner.starts_with(|c: char| c.is_ascii_alphabetic()) { " " } else { "" });
                o.push_str(inner);
            } else {
                let b = self.s.pick(&["", " ", "\n", "%c}\n"]);
                o.push_str(&format!("{b}{{{inner}}}"));
            }
            o.push(' ');
            return;
        }
        match r {
            R::Word(w) => o.push_str(w),
            R::Arg(_, k) => o.push_str(&format!("#{}", k + 1)),
            R::Wrap(w, v) => {
                for (i, w) in w.iter().enumerate() {
                    o.push_str(w);
                    for r in v.get(i).into_iter().flatten() {
                        self.write(r, kept, o);
                    }
                }
            }
        }
        o.push(' ');
    }
}
/// Long runs of uses that leave little or nothing, one directly after the other.
fn runs(s: &mut Src, o: &mut Obs, conds: bool) -> Res {
    let text = s.chance(1, 3);
    let mut m = "\\newcommand{\\re}{}\\newcommand{\\rx}{x}\\newcommand{\\rg}[1]{}\\newcommand{\\rt}[1]{#1}\\newcommand{\\rn}{\\re\\re{}\\rg{q}}\\newenvironment{rv}{}{}".to_string();
    let mut e = String::new();
    let (mut steps, mut defs) = (0, 0);
    for _ in 0..s.range(1, 4) {
        // the kinds of one run
        let kinds: Vec<usize> = (0..s.range(1, 3)).map(|_| s.weighted(&[3, 2, 2, 2, 2, 1, if conds { 6 } else { 0 }, if conds { 4 } else { 0 }, 1])).collect();
        let top = s.of(&[5, 40, 200, 400, 700]);
        for _ in 0..s.range(1, top) {
            let k = s.of(&kinds);
            steps += 1;
            let (a, b) = match k {
                0 => ("\\re", ""),
                1 => ("\\rg{ab}", ""),
                2 => ("\\rt{}", ""),
                3 => ("\\rt\\re", ""),
                4 => {
                    defs += 1;
                    if s.chance(1, 2) { ("\\providecommand{\\re}{w}", "") } else { ("\\renewcommand{\\re}{}", "") }
                }
                5 => ("\\begin{rv}\\end{rv}", ""),
                6 => ("\\iftrue\\fi", ""),
                7 => ("\\iftrue\\else y\\fi", ""),
                _ => ("\\rn", "{}"),
            };
            m.push_str(a);
            e.push_str(b);
        }
        let (a, b) = s.of(&[(" p ", " p "), ("{}", "{}"), ("\\rx{}", "x{}"), (" \\rt{z} ", " z "), ("\n", "\n"), (" k+\\rx ", " k+x ")]);
        m.push_str(a);
        e.push_str(b);
    }
    m.push_str(" rest");
    e.push_str(" rest");
    o.show(&m);
    o.nontrivial = steps > 150;
    o.label_if(defs > 50, "many definitions");
    if dry() {
        return Ok(());
    }
    let ok = equal(text, &m, &e, "written out,")?;
    o.label_if(!ok, "rejected-both");
    Ok(())
}
fn makers(s: &mut Src, o: &mut Obs) -> Res {
    let levels = s.range(2, 4);
    let nargs: Vec<usize> = (0..levels).map(|_| s.range(0, 3)).collect();
    let named: Vec<bool> = (0..levels).map(|i| i > 0 && nargs[i - 1] > 0 && s.chance(1, 2)).collect();
    const NAMES: &[&str] = &["\\mka", "\\mkb", "\\mkc", "\\mkd"];
    let mut g = Makers { s, nargs: nargs.clone(), named: named.clone(), kept: 0 };
    let body = g.pieces(2);
    let mut text = String::new();
    for r in &body {
        g.write(r, 0, &mut text);
    }
    for i in (0..levels).rev() {
        let head = if i == 0 { "newcommand" } else { g.s.pick(&["newcommand", "DeclareRobustCommand", "providecommand"]) };
        let name = if named[i] {
            // an argument of the macro that defines this one, for levels above
            let mut n = "#1".to_string();
            for _ in 1..i {
                n = format!("\\mitexrecurse{{{n}}}");
            }
            n
        } else {
            NAMES[i].to_string()
        };
        let n = if nargs[i] > 0 { format!("[{}]", nargs[i]) } else { String::new() };
        text = format!("\\{head}{{{name}}}{n}{{{text}}}");
    }
    let (mut m, mut e) = (text, String::new());
    let uses = g.s.range(1, 2);
    for k in 0..uses {
        // a second use is one of the last macro only
        let mut args: Vec<Vec<&str>> = vec![];
        for i in 0..levels {
            let mut v = vec![];
            for j in 0..nargs[i] {
                let name = j == 0 && i + 1 < levels && named[i + 1];
                v.push(if name { NAMES[i + 1] } else { g.s.pick(&["x", "", "{u}v", "\\alpha", "\\frac{a}{b}", "p_1", "q+r"]) });
            }
            args.push(v);
        }
        if k > 0 {
            break;
        }
        for i in 0..levels {
            m.push_str(NAMES[i]);
            args[i].iter().for_each(|a| m.push_str(&format!("{{{a}}}")));
            m.push(' ');
        }
        body.iter().for_each(|r| r.value(&args, &mut e));
        if uses == 2 {
            let i = levels - 1;
            let again: Vec<&str> = (0..nargs[i]).map(|_| g.s.pick(&["s", "\\beta", "{t}"])).collect();
            m.push_str(NAMES[i]);
            again.iter().for_each(|a| m.push_str(&format!("{{{a}}}")));
            args[i] = again;
            body.iter().for_each(|r| r.value(&args, &mut e));
        }
    }
    let kept = g.kept;
    o.show(&m);
    o.label_if(kept > 1, "kept arguments");
    o.label_if(levels > 2, "three or more levels");
    if dry() {
        return Ok(());
    }
    let ok = equal(false, &m, &e, "written out,")?;
    o.nontrivial = ok && kept > 0;
    o.label_if(!ok, "rejected-both");
    Ok(())
}

fn c05() -> Property {
    let mk = |text: bool, large: bool| {
        move |s: &mut Src, o: &mut Obs| -> Res {
            let mut g = G::new(s, text, false);
            if large {
                (g.big, g.large) = (3, true);
            }
            let f = g.document();
            if f.w[0] > 200_000 {
                return Ok(());
            }
            let (uses, nested, defs) = (g.uses, g.nested, g.defs.clone());
            o.show(&f.m);
            if dry() {
                return Ok(());
            }
            let ok = equal(text, &f.m, &flat(&f.e), "written out,")?;
            o.nontrivial = ok && uses > 0;
            o.label_if(!ok, "rejected-both");
            o.label_if(ok && nested > 0, "macro-in-argument");
            o.label_if(ok && uses > 0 && defs.iter().any(|d| d.opt.is_some()), "optional-argument");
            o.label_if(ok && uses > 0 && defs.iter().any(|d| d.end.is_some()), "environment");
            o.label_if(ok && defs.iter().any(|d| d.nargs > 3), "many-arguments");
            o.label_if(f.m.len() > 1000, "long");
            Ok(())
        }
    };
    Property {
        id: "C05",
        rule: "documents (math and text) with 1-5 definitions (\\newcommand, \\DeclareRobustCommand, \\providecommand, \\newenvironment, with and without star, blanks and comments between the parts, 0-9 arguments, optional default) and uses in every position (arguments of commands and macros, scripts, environments, \\left..\\right, bodies of later macros) are generated together with their expansion by textual substitution; the conversions must agree. Non-trivial: at least one macro use and both conversions succeed",
        assumptions: &["comparison is up to the amount of blanks"],
        subs: vec![sub("math", 700_000, 14_000_000, mk(false, false)), sub("text", 400_000, 8_000_000, mk(true, false)), sub("large", 40_000, 1_000_000, mk(false, true)), sub("large-text", 20_000, 500_000, mk(true, true)), sub("makers", 300_000, 6_000_000, makers), sub("runs", 150_000, 4_000_000, |s, o| runs(s, o, false))],
    }
}


// ------------------------------------------------------------- C07
fn c07() -> Property {
    let mk = |text: bool, large: bool| {
        move |s: &mut Src, o: &mut Obs| -> Res {
            let mut g = G::new(s, text, true);
            if large {
                (g.big, g.large) = (3, true);
            }
            let f = g.document();
            if f.w[0] > 200_000 {
                return Ok(());
            }
            let (taken, dropped, uses) = (g.taken, g.dropped, g.uses);
            o.show(&f.m);
            if dry() {
                return Ok(());
            }
            let ok = equal(text, &f.m, &flat(&f.e), "with the chosen branches only,")?;
            o.nontrivial = ok && taken + dropped > 0;
            o.label_if(!ok, "rejected-both");
            o.label_if(ok && dropped > 0, "dropped-branch");
            o.label_if(ok && taken > 0, "taken-branch");
            o.label_if(ok && dropped > 0 && uses > 0, "with-macros");
            o.label_if(f.m.len() > 1000, "long");
            Ok(())
        }
    };
    let code = |s: &mut Src, o: &mut Obs| -> Res {
        let text = s.chance(1, 2);
        let words = |s: &mut Src| {
            let mut w = String::new();
            for _ in 0..s.range(1, 3) {
                w.push_str(s.pick(&["x", "y ", "ab ", "c"]));
            }
            w
        };
        let a = words(s);
        let b = words(s);
        let mut c = s.pick(&[" ", "\n", "#", "(", "1", "%c\n"]).to_string();
        for _ in 0..s.range(0, 12) {
            gen::piece(s, &mut c, false);
        }
        c = c.replace("\\begin", "b").replace("\\end", "e");
        if ends_in_command(&c) || c.ends_with('\\') || c.rsplit(['\n', '\r']).next().unwrap().contains('%') {
            c.push('\n');
        }
        let t = format!("{a}\\iftypst{c}\\fi {b}");
        o.show(&t);
        if dry() {
            return Ok(());
        }
        // a name that goes on after `\iftypst` or `\fi`, or a conditional in the code
        if c.starts_with(|c: char| c.is_ascii_alphabetic() || c == '@') || c.contains("\\newcommand") {
            return Ok(());
        }
        o.nontrivial = c.trim().len() > 1;
        let side = |w: &str| conv(text, w).map_err(|e| format!("{w:?} is rejected: {e}"));
        let want = format!("{}{c}{}", side(&a)?, side(&format!(" {b}"))?);
        let got = conv(text, &t);
        match got {
            Ok(g) if g == want || text && collapse(&g) == collapse(&want) => Ok(()),
            got => Err(format!("code {c:?} is not passed on verbatim:\n  want {want:?}\n  got  {got:?}")),
        }
    };
    Property {
        id: "C07",
        rule: "documents (math and text) with nested \\iftrue/\\iffalse/\\iftypst with and without \\else in every position (arguments, scripts, environments, macro bodies and arguments), dropped branches holding anything (nested conditionals of all kinds, definitions, unbalanced braces, environments and dollars, unknown commands, comments with \\fi), are generated together with the same text where the chosen branch stands in place of the conditional; conversions must agree. `typst-code`: random code of any tokens inside \\iftypst..\\fi must appear verbatim between the conversions of its surroundings. Non-trivial: at least one conditional and both conversions succeed (typst-code: code is not blank)",
        assumptions: &["comparison is up to the amount of blanks"],
        subs: vec![sub("math", 500_000, 10_000_000, mk(false, false)), sub("text", 400_000, 8_000_000, mk(true, false)), sub("large", 40_000, 1_000_000, mk(false, true)), sub("large-text", 20_000, 500_000, mk(true, true)), sub("runs", 150_000, 4_000_000, |s, o| runs(s, o, true)), sub("typst-code", 150_000, 4_000_000, code)],
    }
}

// ------------------------------------------------------------- C06
#[derive(Clone, Debug)]
enum B {
    Lit(String),
    Param(usize),
    Use { name: String, opt: Option<Vec<B>>, args: Vec<Vec<B>> },
    Env { name: String, opt: Option<Vec<B>>, args: Vec<Vec<B>>, body: Vec<B>, end: String },
    Def(Box<D>),
}
#[derive(Clone, Debug)]
struct D {
    head: &'static str,
    star: bool,
    env: bool,
    name: String,
    nargs: usize,
    opt: Option<Vec<B>>,
    body: Vec<B>,
    end: Vec<B>,
    blanks: [&'static str; 5],
}
#[derive(Clone, Debug)]
enum Entry {
    Builtin,
    Cmd(D),
    Env(D),
}
fn write_args(o: &mut String, opt: &Option<Vec<B>>, args: &[Vec<B>]) {
    if let Some(x) = opt {
        o.push('[');
        write_bs(o, x);
        o.push(']');
    }
    for a in args {
        o.push('{');
        write_bs(o, a);
        o.push('}');
    }
}
fn write_bs(o: &mut String, bs: &[B]) {
    for b in bs {
        match b {
            B::Lit(w) => o.push_str(w),
            B::Param(k) => o.push_str(&format!("#{}", k + 1)),
            B::Use { name, opt, args } => {
                o.push('\\');
                o.push_str(name);
                write_args(o, opt, args);
                if opt.is_none() && args.is_empty() {
                    o.push(' ');
                }
            }
            B::Env { name, opt, args, body, end } => {
                o.push_str(&format!("\\begin{{{name}}}"));
                write_args(o, opt, args);
                write_bs(o, body);
                o.push_str(&format!("\\end{{{end}}}"));
            }
            B::Def(d) => {
                let star = if d.star { "*" } else { "" };
                let bl = &d.blanks;
                o.push_str(&format!("\\{}{star}{}{{{}", d.head, bl[0], bl[1]));
                if !d.env {
                    o.push('\\');
                }
                o.push_str(&format!("{}{}}}", d.name, bl[2]));
                if d.nargs > 0 || d.opt.is_some() {
                    o.push_str(&format!("{}[{}]", bl[3], d.nargs));
                }
                if let Some(x) = &d.opt {
                    o.push_str(&format!("{}[", bl[4]));
                    write_bs(o, x);
                    o.push(']');
                }
                o.push_str(&format!("{}{{", bl[1]));
                write_bs(o, &d.body);
                o.push('}');
                if d.env {
                    o.push_str(&format!("{}{{", bl[2]));
                    write_bs(o, &d.end);
                    o.push('}');
                }
            }
        }
    }
}
fn subst_bs(bs: &[B], args: &[Vec<B>]) -> Vec<B> {
    let all = |v: &Vec<Vec<B>>| v.iter().map(|a| subst_bs(a, args)).collect();
    let mut out = vec![];
    for b in bs {
        match b {
            B::Param(k) => out.extend(args[*k].iter().cloned()),
            B::Use { name, opt, args: a } => {
                out.push(B::Use { name: name.clone(), opt: opt.as_ref().map(|x| subst_bs(x, args)), args: all(a) })
            }
            B::Env { name, opt, args: a, body, end } => out.push(B::Env {
                name: name.clone(),
                opt: opt.as_ref().map(|x| subst_bs(x, args)),
                args: all(a),
                body: subst_bs(body, args),
                end: end.clone(),
            }),
            b => out.push(b.clone()),
        }
    }
    out
}

#[derive(Debug, PartialEq)]
enum Stop {
    /// an error is to be reported
    Error,
    /// the use does not match the definition in force: not specified
    Unclear,
}
#[derive(Clone)]
struct Model {
    table: BTreeMap<String, Entry>,
    out: String,
    fuel: usize,
    expanded: usize,
    /// where the first error is
    failed: Option<usize>,
}
const SPEC_NAME: &str = "alpha";
impl Model {
    fn new() -> Self {
        let mut table = BTreeMap::new();
        for h in ["newcommand", "renewcommand", "providecommand", "DeclareRobustCommand", "newenvironment", "renewenvironment"] {
            table.insert(h.to_string(), Entry::Builtin);
            table.insert(format!("{h}*"), Entry::Builtin);
        }
        Model { table, out: String::new(), fuel: 300, expanded: 0, failed: None }
    }
    fn lit(&mut self, w: &str) {
        self.out.push_str(w);
    }
    fn bind(&self, d: &D, opt: &Option<Vec<B>>, args: &[Vec<B>]) -> Result<Vec<Vec<B>>, Stop> {
        let mut a = vec![];
        match (&d.opt, opt) {
            (Some(_), Some(x)) => a.push(x.clone()),
            (Some(x), None) => a.push(x.clone()),
            (None, Some(_)) => return Err(Stop::Unclear),
            (None, None) => {}
        }
        a.extend(args.iter().cloned());
        if a.len() == d.nargs {
            Ok(a)
        } else {
            Err(Stop::Unclear)
        }
    }
    fn pass_args(&mut self, opt: &Option<Vec<B>>, args: &[Vec<B>]) -> Result<(), Stop> {
        if let Some(x) = opt {
            self.lit("[");
            self.run(x)?;
            self.lit("]");
        }
        for a in args {
            self.lit("{");
            self.run(a)?;
            self.lit("}");
        }
        Ok(())
    }
    /// Notes an error. What follows it has to be free of defined names, as how
    /// they would expand (and whether that ends) is not specified.
    fn fail(&mut self, rest: &[&[B]]) -> Result<(), Stop> {
        if !rest.iter().all(|r| calm(r)) {
            return Err(Stop::Unclear);
        }
        self.failed.get_or_insert(self.out.len());
        Ok(())
    }
    fn run(&mut self, bs: &[B]) -> Result<(), Stop> {
        for b in bs {
            if self.fuel == 0 {
                return Err(Stop::Unclear);
            }
            self.fuel -= 1;
            if self.failed.is_some() {
                if !calm(std::slice::from_ref(b)) {
                    return Err(Stop::Unclear);
                }
                continue;
            }
            match b {
                B::Lit(w) => self.lit(w),
                B::Param(_) => panic!("parameter left over"),
                B::Use { name, opt, args } => match self.table.get(name).cloned() {
                    Some(Entry::Cmd(d)) => {
                        self.expanded += 1;
                        let a = self.bind(&d, opt, args)?;
                        self.run(&subst_bs(&d.body, &a))?;
                        self.lit(" ");
                    }
                    Some(Entry::Builtin) => return Err(Stop::Unclear),
                    _ => {
                        self.lit(&format!("\\{name} "));
                        self.pass_args(opt, args)?;
                    }
                },
                B::Env { name, opt, args, body, end } => match self.table.get(name).cloned() {
                    Some(Entry::Env(d)) => {
                        self.expanded += 1;
                        let a = self.bind(&d, opt, args)?;
                        if end != name {
                            self.fail(&[&d.body, body, &d.end])?;
                            continue;
                        }
                        self.run(&subst_bs(&d.body, &a))?;
                        self.run(body)?;
                        self.run(&subst_bs(&d.end, &a))?;
                    }
                    _ => {
                        self.lit(&format!("\\begin{{{name}}}"));
                        self.pass_args(opt, args)?;
                        self.run(body)?;
                        self.lit(&format!("\\end{{{end}}}"));
                    }
                },
                B::Def(d) => {
                    let known = self.table.contains_key(&d.name);
                    let e = if d.env { Entry::Env((**d).clone()) } else { Entry::Cmd((**d).clone()) };
                    match d.head {
                        "providecommand" if known => {}
                        "providecommand" => {
                            self.table.insert(d.name.clone(), e);
                        }
                        "renewcommand" | "renewenvironment" => {
                            if !known && d.name != SPEC_NAME {
                                self.fail(&[])?;
                                continue;
                            }
                            self.table.insert(d.name.clone(), e);
                        }
                        _ => {
                            if known {
                                self.fail(&[])?;
                                continue;
                            }
                            self.table.insert(d.name.clone(), e);
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

/// Without a use of a name that may be defined.
fn calm(bs: &[B]) -> bool {
    bs.iter().all(|b| match b {
        B::Lit(_) | B::Param(_) => true,
        B::Use { .. } | B::Env { .. } | B::Def(_) => false,
    })
}
/// Which names a definition of a name mentions, over a whole history.
#[derive(Clone, Default)]
struct Mentions(BTreeMap<String, std::collections::BTreeSet<String>>);
impl Mentions {
    fn walk(&mut self, bs: &[B], of: Option<&str>) {
        for b in bs {
            match b {
                B::Lit(_) | B::Param(_) => {}
                B::Use { name, opt, args } => {
                    self.edge(of, name);
                    opt.iter().for_each(|x| self.walk(x, of));
                    args.iter().for_each(|x| self.walk(x, of));
                }
                B::Env { name, opt, args, body, .. } => {
                    self.edge(of, name);
                    opt.iter().for_each(|x| self.walk(x, of));
                    args.iter().for_each(|x| self.walk(x, of));
                    self.walk(body, of);
                }
                B::Def(d) => {
                    for part in [Some(&d.body), Some(&d.end), d.opt.as_ref()].into_iter().flatten() {
                        self.walk(part, Some(&d.name));
                        self.walk(part, of);
                    }
                }
            }
        }
    }
    fn edge(&mut self, of: Option<&str>, name: &str) {
        if let Some(of) = of {
            self.0.entry(of.to_string()).or_default().insert(name.to_string());
        }
    }
    fn cyclic(&self) -> bool {
        self.0.keys().any(|k| {
            let (mut seen, mut todo) = (vec![], vec![k]);
            while let Some(n) = todo.pop() {
                for m in self.0.get(n).into_iter().flatten() {
                    if m == k {
                        return true;
                    }
                    if !seen.contains(&m) {
                        seen.push(m);
                        todo.push(m);
                    }
                }
            }
            false
        })
    }
}

struct H<'a> {
    s: &'a mut Src,
    model: Model,
    n: usize,
}
const HNAMES: &[&str] = &["foo", "bax", "qux", "myenv"];
impl H<'_> {
    fn word(&mut self) -> B {
        self.n += 1;
        B::Lit(match self.s.weighted(&[6, 2, 1]) {
            0 => format!("w{} ", self.n),
            1 => self.s.pick(&["+", "(", ")", "{x}", "\\beta ", "_", ";", "%c\n", "\n"]).to_string(),
            _ => format!("{{{}}}", self.n),
        })
    }
    fn content(&mut self, d: usize, np: usize) -> Vec<B> {
        let mut v = vec![];
        for _ in 0..self.s.range(0, 3) {
            if np > 0 && self.s.chance(1, 2) {
                v.push(B::Param(self.s.below(np)));
            } else if d > 0 && self.s.chance(1, 3) {
                v.push(self.usage(d - 1));
            } else if d > 0 && self.s.chance(1, 10) {
                let x = self.def(0);
                v.push(B::Def(Box::new(x)));
            } else {
                v.push(self.word());
            }
        }
        v
    }
    fn args_for(&mut self, e: Option<&D>, d: usize) -> (Option<Vec<B>>, Vec<Vec<B>>) {
        match e {
            Some(x) => {
                let mut opt = None;
                let mut left = x.nargs;
                if x.opt.is_some() {
                    left -= 1;
                    if self.s.chance(1, 2) {
                        opt = Some(vec![self.word()]);
                    }
                }
                (opt, (0..left).map(|_| self.content(d, 0)).collect())
            }
            None => (None, (0..self.s.small(2)).map(|_| self.content(d, 0)).collect()),
        }
    }
    /// A use of some name as it is defined now.
    fn usage(&mut self, d: usize) -> B {
        let name = if self.s.chance(1, 8) { SPEC_NAME } else { self.s.pick(HNAMES) }.to_string();
        let entry = self.model.table.get(&name).cloned();
        let as_env = match &entry {
            Some(Entry::Env(_)) => !self.s.chance(1, 6),
            _ => self.s.chance(1, 8) && name != SPEC_NAME,
        };
        match (entry, as_env) {
            (Some(Entry::Env(x)), true) => {
                let (opt, args) = self.args_for(Some(&x), d);
                let mut body = vec![B::Lit("{}".into())];
                body.extend(self.content(d, 0));
                let end = if self.s.chance(1, 12) { self.s.pick(&["foo", "matrix", "other"]).to_string() } else { name.clone() };
                B::Env { name, opt, args, body, end }
            }
            (Some(Entry::Cmd(x)), false) => {
                let (opt, args) = self.args_for(Some(&x), d);
                B::Use { name, opt, args }
            }
            (_, true) => {
                let body = self.content(d, 0);
                B::Env { end: name.clone(), name, opt: None, args: vec![], body }
            }
            (_, false) => {
                let (opt, args) = self.args_for(None, d);
                B::Use { name, opt, args }
            }
        }
    }
    /// (d = 0: in the body of another definition, where # would be that one's)
    fn def(&mut self, d: usize) -> D {
        let env = self.s.chance(1, 4);
        let mut name = self.s.pick(HNAMES).to_string();
        let known = self.model.table.contains_key(&name);
        // mostly what fits the state, sometimes what does not
        let fits = !self.s.chance(1, 8);
        let heads: &[&'static str] = match (env, known == fits) {
            (false, true) => &["renewcommand", "providecommand"],
            (false, false) => &["newcommand", "providecommand", "DeclareRobustCommand"],
            (true, true) => &["renewenvironment"],
            (true, false) => &["newenvironment"],
        };
        let head = heads[self.s.below(heads.len())];
        if head == "renewcommand" && self.s.chance(1, 6) {
            name = SPEC_NAME.to_string();
        } else if head == "newcommand" && self.s.chance(1, 30) {
            name = "newcommand".to_string();
        }
        let nargs = if d == 0 { 0 } else { self.s.small(3) };
        let opt = (nargs > 0 && self.s.chance(1, 3)).then(|| vec![self.word()]);
        let blank = |s: &mut Src| if s.chance(1, 8) { s.pick(&[" ", "\n", "%c\n"]) } else { "" };
        let blanks = [blank(self.s), blank(self.s), blank(self.s), blank(self.s), blank(self.s)];
        D {
            head,
            star: self.s.chance(1, 4),
            env,
            name,
            nargs,
            opt,
            body: self.content(d, nargs),
            end: if env { self.content(d, nargs) } else { vec![] },
            blanks,
        }
    }
}
/// Tokens without blanks, words character by character.
fn norm<'a>(ts: impl Iterator<Item = (Token, &'a str)>) -> Vec<(Token, String)> {
    let mut v = vec![];
    for (k, t) in ts {
        if k.is_trivia() {
        } else if k == Token::Word {
            v.extend(t.chars().map(|c| (k, c.to_string())));
        } else {
            v.push((k, if k == Token::Error { String::new() } else { t.to_string() }));
        }
    }
    v
}

fn c06() -> Property {
    let history = |s: &mut Src, o: &mut Obs| -> Res {
        let mut h = H { s, model: Model::new(), n: 0 };
        let mut text = String::new();
        if h.s.chance(1, 6) {
            for _ in 0..h.s.range(70, 180) {
                text.push_str("a ");
                h.model.lit("a ");
            }
        }
        let n = h.s.range(1, 14);
        let mut stop = None;
        let mut mentions = Mentions::default();
        let mut defs = 0;
        for _ in 0..n {
            let b = match h.s.weighted(&[5, 5, 1]) {
                0 => {
                    defs += 1;
                    let d = h.def(1);
                    B::Def(Box::new(d))
                }
                1 => h.usage(2),
                _ => h.word(),
            };
            let mut w = String::new();
            write_bs(&mut w, std::slice::from_ref(&b));
            text.push_str(&w);
            let before = h.model.clone();
            let old_mentions = mentions.clone();
            mentions.walk(std::slice::from_ref(&b), None);
            if mentions.cyclic() {
                // expansion might not end
                text.truncate(text.len() - w.len());
                mentions = old_mentions;
                continue;
            }
            h.model.fuel = 300;
            match h.model.run(std::slice::from_ref(&b)) {
                Ok(()) if h.model.failed.is_some() => {
                    stop = Some(Stop::Error);
                    break;
                }
                Ok(()) => {}
                Err(Stop::Unclear) => {
                    // take the operation back
                    text.truncate(text.len() - w.len());
                    h.model = before;
                    mentions = old_mentions;
                    continue;
                }
                Err(Stop::Error) => unreachable!(),
            }
            text.push(';');
            h.model.lit(";");
        }
        // at last a use without its arguments or without its end
        let mut starved = false;
        if stop.is_none() && h.s.chance(1, 5) {
            let name = h.s.pick(HNAMES).to_string();
            match h.model.table.get(&name).cloned() {
                Some(Entry::Cmd(d)) if d.nargs > (d.opt.is_some() as usize) => {
                    let grouped = h.s.chance(1, 2);
                    if grouped {
                        text.push('{');
                        h.model.lit("{");
                    }
                    text.push_str(&format!("\\{name}"));
                    let give = h.s.below(d.nargs - d.opt.is_some() as usize);
                    for _ in 0..give {
                        text.push_str(h.s.pick(&["{x}", " y", "{}", "\\beta"]));
                    }
                    text.push_str(h.s.pick(&["", " ", "%c\n"]));
                    if grouped {
                        text.push_str("}z");
                    }
                    stop = Some(Stop::Error);
                    starved = true;
                }
                Some(Entry::Env(d)) => {
                    text.push_str(&format!("\\begin{{{name}}}"));
                    for _ in 0..d.nargs {
                        text.push_str("{x}");
                    }
                    text.push_str("{} body ");
                    if h.s.chance(1, 2) {
                        text.push_str("\\begin{matrix}\\end{matrix}");
                    }
                    stop = Some(Stop::Error);
                    starved = true;
                }
                _ => {}
            }
        }
        let mut model = h.model;
        if let Some(i) = model.failed {
            model.out.truncate(i);
        }
        o.show(&text);
        if dry() {
            return Ok(());
        }
        let spec = mitex_spec_gen::DEFAULT_SPEC.clone();
        let known = |n: &str| spec.get(n).is_some();
        let mut want = norm(reflex::tokens(&model.out, &known).into_iter());
        let mut lx = Lexer::new_with_bumper(&text, spec.clone(), MacroEngine::new(spec.clone()));
        let mut got = vec![];
        while let Some(t) = lx.eat() {
            got.push(t);
        }
        let mut got = norm(got.into_iter());
        o.nontrivial = defs > 0 && model.expanded > 0;
        o.label_if(stop.is_some() && !starved, "definition-or-end-error");
        o.label_if(starved, "missing-arguments-or-end");
        o.label_if(model.expanded > 3, "many-uses");
        o.label_if(model.table.get(SPEC_NAME).is_some(), "catalogued-name-redefined");
        if stop == Some(Stop::Error) {
            want.push((Token::Error, String::new()));
            // what follows an error is not specified
            if let Some(i) = got.iter().position(|t| t.0 == Token::Error) {
                got.truncate(i + 1);
            }
        }
        let show = |v: &[(Token, String)]| v.iter().map(|t| if t.0 == Token::Error { "<error>".to_string() } else { t.1.clone() }).collect::<Vec<_>>().join(" ");
        if let Some(i) = (0..want.len().max(got.len())).find(|&i| want.get(i) != got.get(i)) {
            let from = i.saturating_sub(8);
            let part = |v: &[(Token, String)]| show(&v[from.min(v.len())..(i + 12).min(v.len())]);
            return Err(format!("token {i} differs:\n  model  ..{}\n  actual ..{}", part(&want), part(&got)));
        }
        let conv = mitex::convert_math(&text, None);
        if stop == Some(Stop::Error) {
            if let Ok(x) = conv {
                return Err(format!("no error is reported; converts to {x:?}"));
            }
        } else if let (Ok(a), b) = (mitex::convert_math(&model.out, None), &conv) {
            match b {
                // (the tokens have been compared: blanks are insignificant here)
                Ok(b) if collapse(b).replace(' ', "") == collapse(&a).replace(' ', "") => {}
                b => return Err(format!("converts to {b:?}, the written out text to {a:?}")),
            }
        }
        Ok(())
    };
    Property {
        id: "C06",
        rule: "histories of 1-14 definitions (new/renew/provide/robust commands, new/renew environments; star; 0-3 arguments, optional default; bodies that use other names or define names), uses and misuses over four names and a catalogued one, run against a model table (name -> command or environment definition) that expands by substitution and marks errors; the token stream with macros on must equal the model's (up to blanks) to the first error, the error must be there, and the conversion must fail exactly then. Uses whose arity does not fit the definition in force are left out unless they end the text. Non-trivial: a definition and an expanded use",
        assumptions: &["after the first error nothing is specified", "\\newcommand and \\providecommand of catalogued names are not generated"],
        subs: vec![sub("history", 1_200_000, 24_000_000, history)],
    }
}

// ------------------------------------------------------------- C08
fn c08() -> Property {
    let map = |s: &mut Src, o: &mut Obs| -> Res {
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Insert(usize, u32),
            Remove(usize),
            Snapshot,
            Rollback,
            Commit,
        }
        let n = if s.chance(1, 10) { s.range(20, 120) } else { s.range(1, 20) };
        let keys = s.range(1, 5);
        let mut ops = vec![];
        let mut open = 0;
        for i in 0..n {
            ops.push(match s.weighted(&[6, 4, 3, if open > 0 { 3 } else { 0 }, if open > 0 { 2 } else { 0 }]) {
                0 => Op::Insert(s.below(keys), i as u32),
                1 => Op::Remove(s.below(keys)),
                2 => {
                    open += 1;
                    Op::Snapshot
                }
                3 => {
                    open -= 1;
                    Op::Rollback
                }
                _ => {
                    open -= 1;
                    Op::Commit
                }
            });
        }
        o.show(format!("{ops:?}"));
        if dry() {
            return Ok(());
        }
        let names = ["a", "b", "c", "d", "e"];
        let mut m: SnapshotMap<String, u32> = SnapshotMap::default();
        let mut now: BTreeMap<String, u32> = BTreeMap::new();
        let mut saved: Vec<BTreeMap<String, u32>> = vec![];
        let mut snaps = vec![];
        let mut undone = false;
        for (i, op) in ops.iter().enumerate() {
            match *op {
                Op::Insert(k, v) => {
                    let new = now.insert(names[k].into(), v).is_none();
                    same(&format!("op {i}: insert reports a new name"), &m.insert(names[k].into(), v), &new)?;
                }
                Op::Remove(k) => {
                    let was = now.remove(names[k]).is_some();
                    same(&format!("op {i}: remove reports an existing name"), &m.remove(names[k].into()), &was)?;
                }
                Op::Snapshot => {
                    snaps.push(m.snapshot());
                    saved.push(now.clone());
                }
                Op::Rollback => {
                    m.rollback_to(snaps.pop().unwrap());
                    let old = saved.pop().unwrap();
                    undone |= old != now;
                    now = old;
                }
                Op::Commit => {
                    m.commit(snaps.pop().unwrap());
                    saved.pop();
                }
            }
            for k in names {
                same(&format!("op {i} ({op:?}): lookup of {k}"), &m.get(k), &now.get(k))?;
                if now.contains_key(k) {
                    same(&format!("op {i} ({op:?}): index of {k}"), &m[&k.to_string()], &now[k])?;
                }
            }
        }
        // close what is still open
        while let Some(sn) = snaps.pop() {
            m.rollback_to(sn);
            now = saved.pop().unwrap();
            for k in names {
                same(&format!("at the end: lookup of {k}"), &m.get(k), &now.get(k))?;
            }
        }
        o.nontrivial = undone;
        o.label_if(n > 20, "long-history");
        Ok(())
    };
    let engine = |s: &mut Src, o: &mut Obs| -> Res {
        // scopes of a macro engine
        let names = ["foo", "bar", "newcommand", "matrix"];
        let n = s.range(1, 24);
        let mut plan: Vec<(usize, usize, usize)> = vec![];
        let mut open = 0;
        for _ in 0..n {
            let k = s.weighted(&[5, 3, if open > 0 { 3 } else { 0 }]);
            match k {
                1 => open += 1,
                2 => open -= 1,
                _ => {}
            }
            plan.push((k, s.below(names.len()), s.below(4)));
        }
        o.show(format!("{plan:?}"));
        if dry() {
            return Ok(());
        }
        let spec = mitex_spec_gen::DEFAULT_SPEC.clone();
        let src = "\\newcommand{\\ma}{x}\\newcommand{\\mb}[2][d]{#1}\\newenvironment{mc}{u}{v}\\providecommand{\\md}{yy}";
        let mut lx = Lexer::new_with_bumper(src, spec.clone(), MacroEngine::new(spec.clone()));
        while lx.eat().is_some() {}
        let pool: Vec<_> = ["ma", "mb", "mc", "md"].iter().map(|n| lx.get_macro(n)).collect();
        if pool.iter().any(|m| m.is_none()) {
            return Err("a macro just defined is not found".into());
        }
        let mut e = MacroEngine::new(spec.clone());
        let other = MacroEngine::new(spec);
        let builtin: Vec<Option<String>> = names.iter().map(|n| e.get_macro(n).map(|m| format!("{m:?}"))).collect();
        let mut now = builtin.clone();
        let mut saved: Vec<Vec<Option<String>>> = vec![];
        let mut points = vec![];
        for (i, &(k, name, m)) in plan.iter().enumerate() {
            match k {
                0 => {
                    let v = pool[m].clone().unwrap();
                    now[name] = Some(format!("{v:?}"));
                    e.add_macro(names[name], v);
                }
                1 => {
                    points.push(e.create_scope());
                    saved.push(now.clone());
                }
                _ => {
                    e.restore(points.pop().unwrap());
                    let old = saved.pop().unwrap();
                    o.nontrivial |= old != now;
                    now = old;
                }
            }
            for (j, n) in names.iter().enumerate() {
                same(&format!("step {i}: macro {n}"), &e.get_macro(n).map(|m| format!("{m:?}")), &now[j])?;
                same(&format!("step {i}: macro {n} of another engine"), &other.get_macro(n).map(|m| format!("{m:?}")), &builtin[j])?;
            }
        }
        let fresh = MacroEngine::new(mitex_spec_gen::DEFAULT_SPEC.clone());
        for (j, n) in names.iter().enumerate() {
            same(&format!("macro {n} of a later engine"), &fresh.get_macro(n).map(|m| format!("{m:?}")), &builtin[j])?;
        }
        Ok(())
    };
    Property {
        id: "C08",
        rule: "random histories (1-120 operations, 1-5 names) of insert, remove, snapshot, rollback and commit on SnapshotMap, and of defining, opening and restoring scopes on MacroEngine, checked after every operation against a stack of plain maps (all lookups, indexing, return values), plus independence of engines. Non-trivial: a rollback that changes some binding",
        assumptions: &["snapshots are closed innermost first"],
        subs: vec![sub("snapshot-map", 2_000_000, 60_000_000, map), sub("engine-scopes", 200_000, 6_000_000, engine)],
    }
}

fn main() {
    main_for(vec![c05(), c06(), c07(), c08()])
}
