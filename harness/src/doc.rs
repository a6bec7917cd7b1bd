//! Generated documents: an abstract formula/text, its LaTeX source (with free
//! layout choices) and the Typst code it must convert to, rendered from the
//! abstract tree alone.
use crate::Src;
use mitex_spec_gen::DEFAULT_SPEC;

// ------------------------------------------------------------------ trees
#[derive(Debug, Clone)]
pub enum M {
    /// letters, digits and relation characters, written together
    Word(String),
    /// a character with its own token: (source, typst)
    Punct(&'static str, &'static str),
    /// command without arguments
    Sym(&'static str),
    /// command with fixed arguments
    Cmd(&'static str, Vec<Arg>),
    Sqrt(Option<Vec<M>>, Arg),
    /// text command inside of math
    TextCmd(&'static str, Vec<T>),
    Group(Vec<M>),
    /// marks on an item: (mark, argument)
    Script(Option<Box<M>>, usize, Vec<(char, Arg)>),
    Limits(Box<M>, &'static str, Vec<(char, Arg)>),
    Lr(Delim, Delim, Vec<M>),
    /// whole list: {l \over r}
    Infix(&'static str, Vec<M>, Vec<M>),
    /// last item of a list
    Greedy(&'static str, Vec<M>),
    /// \color[model]{c} to the end of the list
    Color(Option<&'static str>, &'static str, Vec<M>),
    /// \textcolor, \colorbox
    ColorCmd(&'static str, Option<&'static str>, &'static str, Arg),
    Env(&'static str, Option<Vec<M>>, Vec<Vec<Vec<M>>>, bool),
    Substack(Vec<Vec<M>>),
    /// a row break inside of braces, where it separates no rows
    Break,
}
#[derive(Debug, Clone)]
pub enum Arg {
    Braced(Vec<M>),
    Bare(Box<M>),
}
pub type Delim = (&'static str, &'static str);

#[derive(Debug, Clone)]
pub enum T {
    Word(String),
    Punct(&'static str, &'static str),
    Blank(&'static str),
    Break,
    Cmd(&'static str, Vec<Vec<T>>),
    Group(Vec<T>),
    Inline(bool, Vec<M>),
    Display(bool, Vec<M>),
    /// formula environment of its own, with label
    EnvMath(M, Option<String>),
    Quote(&'static str, Vec<T>),
    List(bool, Vec<Vec<T>>),
    Color(&'static str, Option<&'static str>, &'static str, Vec<T>),
    /// \color to the end of the group
    ColorRest(Option<&'static str>, &'static str, Vec<T>),
    Table(Table),
    Figure(Figure),
    Image(String, Vec<(&'static str, &'static str)>),
    /// \label outside of an environment
    Label(String),
    /// anything (no expectation)
    Raw(String),
}
#[derive(Debug, Clone)]
pub struct Table {
    /// l, c, r, | and blanks
    pub spec: String,
    pub rows: Vec<(Vec<&'static str>, Vec<Vec<T>>)>,
    /// the last row ends with \\, then these rules
    pub end: Option<Vec<&'static str>>,
}
#[derive(Debug, Clone)]
pub struct Figure {
    pub name: &'static str,
    pub opt: &'static str,
    pub caption: Option<Vec<T>>,
    pub body: Vec<T>,
    pub label: Option<String>,
    /// where \caption, \label and \centering stand: before which piece of the body
    pub at: [usize; 3],
    pub centering: bool,
}
pub const RULES: &[(&str, &str)] = &[("hline", ".5pt"), ("toprule", "1pt"), ("midrule", ".5pt"), ("bottomrule", "1pt")];
pub const LABELS: &[&str] = &["eq:a", "fig:b", "l-1", "x.y", "s_1", "a"];

// ------------------------------------------------------------------ tables
pub const SYMS: &[&str] = &[
    "alpha", "beta", "gamma", "sum", "int", "infty", "leq", "to", "cdot", "quad", "partial", "nabla", "sin", "log", "lim", "max",
    "ldots", "in", "times", "pm", "langle", "Gamma", "hbar", "ell", "sim", "approx", "neq", "forall", "exists", "cup", "prod",
    "Rightarrow", "mapsto", "emptyset", "varphi", "det", "oint", "ldots", "cdots", "qquad", "mid", "perp",
];
/// commands named by one non-letter
pub const PUNCT_SYMS: &[&str] = &[",", "!", ";", ":", ">", "{", "}", "%", "$", "&", "#", "_", "|"];
pub const CMD1: &[&str] = &[
    "hat", "bar", "vec", "mathbb", "mathbf", "mathrm", "mathcal", "mathfrak", "tilde", "dot", "ddot", "overline", "underline",
    "operatorname", "overbrace", "underbrace", "phantom", "widehat", "boldsymbol", "boxed", "pmod", "mathit", "overrightarrow",
    "cancel", "bm", "mathop", "widetilde", "check", "breve", "big", "Big", "not", "mathsf", "operatorname*",
];
pub const CMD2: &[&str] = &["frac", "binom", "dfrac", "tfrac", "overset", "underset", "stackrel", "cfrac", "dbinom", "tbinom"];
pub const TEXTCMDS: &[&str] = &["text", "textbf", "textit", "textrm", "texttt", "textsf", "textnormal"];
pub const INFIX: &[&str] = &["over", "choose", "atop", "brace", "brack"];
pub const GREEDY: &[&str] =
    &["displaystyle", "textstyle", "scriptstyle", "scriptscriptstyle", "bf", "rm", "it", "sf", "frak", "tt", "cal"];
pub const MATRICES: &[&str] = &["matrix", "pmatrix", "bmatrix", "Bmatrix", "vmatrix", "Vmatrix", "smallmatrix"];
pub const ALIGNED: &[&str] =
    &["aligned", "align", "align*", "gather", "gather*", "gathered", "split", "equation", "equation*"];
pub const DELIMS: &[Delim] = &[
    ("(", "\\( "), (")", "\\) "), ("[", "\\[ "), ("]", "\\] "), (".", " "), ("|", "| "), ("\\{", "\\{ "), ("\\}", "\\} "),
    ("/", "\\/ "), ("<", "< "), (">", "> "), ("\\|", "|| "),
];
/// delimiter commands whose typst name comes from the specification
pub const DELIM_CMDS: &[&str] = &["langle", "rangle", "lbrack", "rbrack", "vert", "lVert", "uparrow"];
pub const MPUNCT: &[(&str, &str)] = &[
    ("(", "\\("), (")", "\\)"), ("[", "\\["), ("]", "\\]"), (",", "\\,"), ("/", "\\/"), (";", "\\;"), ("\"", "\\\""), ("~", "space.nobreak "),
    ("*", "\\*"), ("@", "\\@"), ("#", "\\#"),
];
pub const WORDCH: &[&str] = &["a", "b", "x", "y", "z", "n", "A", "T", "1", "2", "0", "9", "=", "+", "-", "<", ">", "|", "!", "?", ":", ".", "é", "λ", "中", "𝒜"];
pub const TPUNCT: &[(&str, &str)] = &[
    (",", "\\,"), (".", "."), (";", "\\;"), ("(", "\\("), (")", "\\)"), ("[", "\\["), ("]", "\\]"), ("*", "\\*"), ("@", "\\@"),
    ("/", "\\/"), ("\"", "\\\""), ("!", "!"), ("?", "?"), (":", ":"), ("\\&", "&"), ("\\%", "%"), ("\\$", "\\$"),
    ("\\#", "\\#"), ("\\_", "\\_"), ("\\{", "\\{"), ("\\}", "\\}"), ("~", "~"), ("`", "\\`"), ("<", "\\<"), ("'", "'"), ("#", "\\#"),
];
pub const TWORDS: &[&str] = &[
    "a", "the", "word", "of", "Some", "text", "42nd", "x1", "naïve", "中文", "well-known", "a--b", "3.14", "e.g.", "=", "-", "+", "1.", "==", "->",
    "10:30", "a|b", "§", "«q»", "...", "12.", "+1", "-x", "=a",
];
pub const TCMDS: &[(&str, &str)] = &[
    ("textbf", "#strong"), ("textit", "#emph"), ("emph", "#emph"), ("texttt", "#texttt"), ("textrm", "#textrm"), ("textsf", "#textsf"),
    ("footnote", "#footnote"), ("section", "#heading(level: 1)"), ("subsection", "#heading(level: 2)"), ("textmd", "#textmd"),
    ("textnormal", "#textnormal"), ("textup", "#textup"), ("subsubsection", "#heading(level: 3)"), ("text", "#textmath"),
];
pub const COLORS: &[&str] = &["red", "blue", "teal", "black"];

thread_local! {
    /// aliases of a specification other than the default one: commands, environments
    pub static OVER: std::cell::RefCell<[std::collections::HashMap<String, String>; 2]> = Default::default();
    /// kinds of its environments: matrix, cases, or other
    pub static OVER_SEP: std::cell::RefCell<std::collections::HashMap<String, usize>> = Default::default();
}
pub fn alias(name: &str) -> String {
    if let Some(a) = OVER.with(|o| o.borrow()[0].get(name).cloned()) {
        return a;
    }
    DEFAULT_SPEC.get_cmd(name).and_then(|c| c.alias.clone()).unwrap_or_else(|| name.to_string())
}
pub fn env_alias(name: &str) -> String {
    if let Some(a) = OVER.with(|o| o.borrow()[1].get(name).cloned()) {
        return a;
    }
    DEFAULT_SPEC.get_env(name).and_then(|c| c.alias.clone()).unwrap_or_else(|| name.to_string())
}

// ------------------------------------------------------------------ generation
#[derive(Clone, Debug)]
pub struct Cfg {
    pub word: usize,
    pub punct: usize,
    pub sym: usize,
    pub cmd: usize,
    pub sqrt: usize,
    pub text: usize,
    pub group: usize,
    pub script: usize,
    pub limits: usize,
    pub lr: usize,
    pub infix: usize,
    pub greedy: usize,
    pub env: usize,
    pub color: usize,
    /// inside of \\substack, where braces do not keep row breaks in
    pub stack: bool,
    /// avoid what Typst's grammar gives another meaning than LaTeX's
    pub depth: usize,
    pub len: usize,
    /// how many counts (of items, rows, cells, characters ..) may be large
    pub big: usize,
}
pub const MATH: Cfg = Cfg {
    word: 8, punct: 3, sym: 5, cmd: 4, sqrt: 1, text: 1, group: 2, script: 4, limits: 1, lr: 2, infix: 1, greedy: 1, env: 1, color: 1,
    stack: false, depth: 4, len: 5, big: 0,
};

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub cfg: Cfg,
}
impl Gen<'_> {
    fn len(&mut self, d: usize) -> usize {
        let max = if d >= 2 { self.cfg.len } else { 2 };
        self.many(0, max)
    }
    /// a count, large at times
    pub fn many(&mut self, min: usize, max: usize) -> usize {
        if self.cfg.big > 0 && self.s.chance(1, 4) {
            self.cfg.big -= 1;
            let top = self.s.of(&[8, 12, 20, 40, 300]).max(max + 1);
            return self.s.range(max + 1, top);
        }
        self.s.range(min, max)
    }
    /// the list within some tens of constructs
    pub fn deepen(&mut self, mut v: Vec<M>) -> Vec<M> {
        let top = self.s.of(&[10, 20, 40]);
        for _ in 0..self.s.range(4, top) {
            let m = match self.s.below(7) {
                0 => M::Group(v),
                1 => M::Sqrt(None, Arg::Braced(v)),
                2 => M::Cmd(self.s.pick(CMD1), vec![Arg::Braced(v)]),
                3 => {
                    let (l, r) = (self.delim(), self.delim());
                    M::Lr(l, r, v)
                }
                4 => {
                    let base = Some(Box::new(M::Word(self.letter())));
                    M::Script(base, 0, vec![(self.s.of(&['_', '^']), Arg::Braced(v))])
                }
                5 => {
                    let other = self.arg(0);
                    let args = if self.s.chance(1, 2) { vec![Arg::Braced(v), other] } else { vec![other, Arg::Braced(v)] };
                    M::Cmd(self.s.pick(CMD2), args)
                }
                _ => M::Env(self.s.pick(MATRICES), None, vec![vec![v]], false),
            };
            v = vec![m];
            if self.s.chance(1, 4) {
                v.push(M::Word(self.letter()));
            }
            if self.s.chance(1, 4) {
                v.insert(0, self.sym());
            }
        }
        v
    }
    /// the text within some tens of constructs
    pub fn deepen_text(&mut self, mut v: Vec<T>) -> Vec<T> {
        let top = self.s.of(&[6, 12, 20]);
        for _ in 0..self.s.range(3, top) {
            let t = match self.s.below(4) {
                0 => T::Group(v),
                1 => T::Color(self.s.pick(&["textcolor", "colorbox"]), None, self.s.pick(COLORS), v),
                _ => T::Cmd(self.s.pick(&["textbf", "textit", "emph", "texttt", "textrm"]), vec![v]),
            };
            v = vec![T::Word("w".into()), T::Blank(" "), t];
            if self.s.chance(1, 3) {
                v.extend([T::Blank(" "), T::Word("end".into())]);
            }
        }
        v
    }
    /// a list within some tens of lists
    pub fn deepen_list(&mut self, mut l: T) -> T {
        let top = self.s.of(&[5, 10, 30]);
        for _ in 0..self.s.range(3, top) {
            let mut items = vec![vec![T::Word("i".into()), T::Blank("\n"), l]];
            if self.s.chance(1, 3) {
                items.push(vec![T::Word("next".into())]);
            }
            if self.s.chance(1, 3) {
                items.insert(0, vec![T::Word("first".into())]);
            }
            l = T::List(self.s.chance(1, 2), items);
        }
        l
    }
    pub fn word(&mut self) -> String {
        let n = self.many(1, 4);
        (0..n).map(|_| self.s.pick(WORDCH)).collect()
    }
    fn letter(&mut self) -> String {
        self.s.pick(&["x", "a", "1", "2", "n", "λ", "+"]).to_string()
    }
    /// A list of items, up to the end of a scope.  `cell`: inside of a cell.
    pub fn list(&mut self, d: usize) -> Vec<M> {
        self.list_(d, true)
    }
    fn list_(&mut self, d: usize, infix: bool) -> Vec<M> {
        if infix && d > 0 && self.s.chance(self.cfg.infix, 12) {
            let name = self.s.pick(INFIX);
            let l = self.items(d - 1, true);
            let r = if self.s.chance(1, 6) { self.tail(d - 1) } else { self.items(d - 1, false) };
            return vec![M::Infix(name, l, r)];
        }
        self.tail(d)
    }
    fn tail(&mut self, d: usize) -> Vec<M> {
        let mut v = self.items(d, true);
        if d > 0 && self.s.chance(self.cfg.greedy, 10) {
            let name = self.s.pick(GREEDY);
            let body = if self.s.chance(1, 5) { self.tail(d - 1) } else { self.items(d - 1, false) };
            v.push(M::Greedy(name, body));
        } else if d > 0 && self.s.chance(self.cfg.color, 14) {
            let model = if self.s.chance(1, 4) { Some("gray") } else { None };
            let c = self.s.pick(COLORS);
            let body = if self.s.chance(1, 4) { self.list_(d - 1, true) } else { self.items(d - 1, true) };
            v.push(M::Color(model, c, body));
        }
        v
    }
    pub fn items(&mut self, d: usize, first: bool) -> Vec<M> {
        let n = self.len(d);
        let mut v = vec![];
        for i in 0..n {
            let m = self.item(d, first && i == 0);
            v.push(m);
        }
        v
    }
    /// `lead`: the first of its list, where a mark has no base
    pub fn item(&mut self, d: usize, lead: bool) -> M {
        let c = self.cfg.clone();
        let deep = d > 0;
        let on = |w: usize| if deep { w } else { 0 };
        match self.s.weighted(&[
            c.word, c.punct, c.sym, on(c.cmd), on(c.sqrt), on(c.text), on(c.group), on(c.script), on(c.limits), on(c.lr), on(c.env),
            on(c.color),
        ]) {
            0 => M::Word(self.word()),
            1 => {
                let (a, b) = self.s.of(MPUNCT);
                M::Punct(a, b)
            }
            2 => self.sym(),
            3 => self.cmd(d),
            4 => {
                let idx = if self.s.chance(1, 2) { Some(self.plain_items(d - 1)) } else { None };
                let a = loop_arg(self, d - 1);
                M::Sqrt(idx, a)
            }
            5 => {
                let n = self.s.pick(TEXTCMDS);
                let t = self.tinline(d - 1, 3);
                M::TextCmd(n, self.broken_text(t))
            }
            6 => {
                let v = self.list(d - 1);
                M::Group(self.broken(v))
            }
            7 => {
                let base = if lead && self.s.chance(1, 3) { None } else { Some(Box::new(self.base(d - 1))) };
                let primes = if base.is_some() { self.s.weighted(&[5, 1, 1]) } else { 0 };
                let marks = self.marks(d - 1, primes == 0, primes > 0);
                M::Script(base, primes, marks)
            }
            8 => {
                let base = match self.s.weighted(&[6, 2, 1]) {
                    0 => M::Sym(self.s.pick(&["sum", "int", "prod", "lim", "max", "bigcup", "oint"])),
                    1 => self.cmd(d - 1),
                    _ => M::Group(self.items(d - 1, true)),
                };
                let name = self.s.pick(&["limits", "nolimits"]);
                let marks = self.marks(d - 1, true, true);
                M::Limits(Box::new(base), name, marks)
            }
            9 => {
                let (l, r) = (self.delim(), self.delim());
                let body = self.list(d - 1);
                M::Lr(l, r, body)
            }
            10 => self.env(d - 1),
            _ => {
                let n = self.s.pick(&["textcolor", "colorbox"]);
                let model = if self.s.chance(1, 4) { Some("gray") } else { None };
                let c = self.s.pick(COLORS);
                let a = Arg::Braced(self.items(d - 1, true));
                M::ColorCmd(n, model, c, a)
            }
        }
    }
    fn delim(&mut self) -> Delim {
        if self.s.chance(1, 4) {
            // resolved while rendering
            (self.s.pick(DELIM_CMDS), "")
        } else {
            self.s.of(DELIMS)
        }
    }
    fn sym(&mut self) -> M {
        if self.s.chance(1, 5) {
            M::Sym(self.s.pick(PUNCT_SYMS))
        } else {
            M::Sym(self.s.pick(SYMS))
        }
    }
    /// maybe puts a row break into the content of braces
    fn broken(&mut self, mut v: Vec<M>) -> Vec<M> {
        if !self.cfg.stack && !v.is_empty() && self.s.chance(1, 10) {
            // (after something that leaves no empty group)
            let at = self.s.below(v.len());
            if matches!(v[at], M::Word(_)) {
                v.insert(at + 1, M::Break);
            }
        }
        v
    }
    /// maybe puts a line break into a text
    fn broken_text(&mut self, mut v: Vec<T>) -> Vec<T> {
        if self.s.chance(1, 12) {
            let at = self.s.below(v.len() + 1);
            v.insert(at, T::Break);
        }
        v
    }
    /// items without brackets, for an index
    fn plain_items(&mut self, d: usize) -> Vec<M> {
        let n = self.s.range(0, 2);
        (0..n)
            .map(|_| match self.s.below(4) {
                0 => M::Word(self.word()),
                1 => self.sym(),
                2 if d > 0 => M::Group(self.list(d - 1)),
                _ => M::Word(self.letter()),
            })
            .collect()
    }
    fn base(&mut self, d: usize) -> M {
        match self.s.weighted(&[6, 3, if d > 0 { 2 } else { 0 }, if d > 0 { 1 } else { 0 }, if d > 0 { 1 } else { 0 }, 1]) {
            0 => M::Word(self.word()),
            1 => self.sym(),
            2 => self.cmd(d),
            3 => M::Group(self.list(d - 1)),
            4 => {
                let (l, r) = (self.delim(), self.delim());
                let body = self.list(d - 1);
                M::Lr(l, r, body)
            }
            _ => {
                let (a, b) = self.s.of(&[(")", "\\)"), ("]", "\\]")]);
                M::Punct(a, b)
            }
        }
    }
    fn marks(&mut self, d: usize, sup: bool, may_empty: bool) -> Vec<(char, Arg)> {
        let k = self.s.weighted(&[2, 2, if sup { 3 } else { 0 }, if sup { 1 } else { 0 }, if may_empty { 1 } else { 0 }]);
        let k = if !sup && (k == 2 || k == 3) { 0 } else { k };
        let mut v = vec![];
        match k {
            0 | 1 => {
                if k == 1 && sup {
                    v.push(('^', self.arg(d)));
                } else {
                    v.push(('_', self.arg(d)));
                }
            }
            2 => {
                v.push(('_', self.arg(d)));
                v.push(('^', self.arg(d)));
            }
            3 => {
                v.push(('^', self.arg(d)));
                v.push(('_', self.arg(d)));
            }
            _ => {}
        }
        if self.s.chance(1, 12) {
            let at = self.s.below(v.len() + 1);
            v.insert(at, ('\'', Arg::Braced(vec![])));
        }
        v
    }
    pub fn arg(&mut self, d: usize) -> Arg {
        match self.s.weighted(&[4, 4, 2, if d > 0 { 1 } else { 0 }]) {
            0 => Arg::Bare(Box::new(M::Word(self.letter()))),
            1 => {
                let v = if d > 0 { self.list(d - 1) } else { self.items(0, false) };
                Arg::Braced(self.broken(v))
            }
            2 => Arg::Bare(Box::new(self.sym())),
            _ => Arg::Bare(Box::new(self.cmd(d - 1))),
        }
    }
    pub fn cmd(&mut self, d: usize) -> M {
        let k = self.s.weighted(&[2, 1]);
        let (name, n) = if k == 0 { (self.s.pick(CMD1), 1) } else { (self.s.pick(CMD2), 2) };
        let args = (0..n).map(|_| self.arg(d)).collect();
        M::Cmd(name, args)
    }
    pub fn env(&mut self, d: usize) -> M {
        let rows = |g: &mut Self, maxc: usize| -> Vec<Vec<Vec<M>>> {
            let r = g.many(1, 3);
            (0..r)
                .map(|_| {
                    let c = g.many(1, maxc);
                    (0..c).map(|_| g.list(d)).collect()
                })
                .collect()
        };
        match self.s.weighted(&[4, 2, 2, 4, 1, 2]) {
            0 => {
                let n = self.s.pick(MATRICES);
                let r = rows(self, 3);
                M::Env(n, None, r, self.s.chance(1, 4))
            }
            1 => {
                let n = self.s.pick(&["array", "subarray"]);
                let n_ = self.many(1, 1);
                let a = vec![M::Word(self.s.pick(&["c", "cc", "l|r", "lcr", "|c|"]).repeat(n_))];
                let r = rows(self, 3);
                M::Env(n, Some(a), r, self.s.chance(1, 4))
            }
            2 => {
                let n = self.s.pick(&["cases", "rcases"]);
                let r = rows(self, 2);
                M::Env(n, None, r, self.s.chance(1, 4))
            }
            3 => {
                let n = self.s.pick(ALIGNED);
                let r = rows(self, 3);
                M::Env(n, None, r, self.s.chance(1, 4))
            }
            4 => {
                let a = vec![M::Word(self.s.pick(&["2", "3"]).to_string())];
                let r = rows(self, 3);
                M::Env("alignedat", Some(a), r, self.s.chance(1, 4))
            }
            _ => {
                let r = self.many(1, 3);
                let outer = std::mem::replace(&mut self.cfg.stack, true);
                let rows = (0..r).map(|_| self.items(d, true)).collect();
                self.cfg.stack = outer;
                M::Substack(rows)
            }
        }
    }
    /// a \begin..\end environment
    pub fn env_only(&mut self, d: usize) -> M {
        match self.env(d) {
            M::Substack(_) => M::Env("aligned", None, vec![vec![vec![]]], false),
            e => e,
        }
    }
    // -------------------------------------------------------------- text
    /// running text (no paragraph-level constructs)
    pub fn tinline(&mut self, d: usize, max: usize) -> Vec<T> {
        let n = self.many(0, max);
        let mut v: Vec<T> = vec![];
        for _ in 0..n {
            let t = self.tinl(d);
            push_t(&mut v, t);
        }
        v
    }
    fn tinl(&mut self, d: usize) -> T {
        let deep = if d > 0 { 1 } else { 0 };
        match self.s.weighted(&[8, 6, 4, 3 * deep, deep, 3 * deep, deep]) {
            0 => T::Word(self.s.pick(TWORDS).to_string()),
            1 => T::Blank(self.s.pick(&[" ", "\n", "  ", " \n", "\t"])),
            2 => {
                let (a, b) = self.s.of(TPUNCT);
                T::Punct(a, b)
            }
            3 => {
                let (n, _) = self.s.of(TCMDS);
                let a = self.tinline(d - 1, 4);
                T::Cmd(n, vec![self.broken_text(a)])
            }
            4 => {
                let v = self.tinline(d - 1, 3);
                T::Group(self.broken_text(v))
            }
            5 => {
                let st = self.s.chance(1, 3);
                let m = self.list(d.min(3) - 1);
                T::Inline(st, m)
            }
            _ => {
                let n = self.s.pick(&["textcolor", "colorbox"]);
                let model = if self.s.chance(1, 4) { Some("gray") } else { None };
                let c = self.s.pick(COLORS);
                let a = self.tinline(d - 1, 3);
                T::Color(n, model, c, self.broken_text(a))
            }
        }
    }
    /// a document
    pub fn tdoc(&mut self, d: usize, max: usize, lists: bool) -> Vec<T> {
        let n = self.many(0, max);
        let mut v = vec![];
        for _ in 0..n {
            let t = match self.s.weighted(&[14, 2, 2, 2, 1, if lists && d > 1 { 2 } else { 0 }, 1]) {
                0 => self.tinl(d),
                1 => T::Blank(self.s.pick(&["\n\n", "\n \n", "\n\n\n"])),
                2 => {
                    let st = self.s.chance(1, 2);
                    let m = self.list(d.min(3));
                    T::Display(st, m)
                }
                3 => {
                    let e = self.env_only(d.clamp(1, 3) - 1);
                    let l = if self.s.chance(1, 3) { Some(self.s.pick(&["eq:a", "b", "l-1", "x.y"]).to_string()) } else { None };
                    T::EnvMath(e, l)
                }
                4 => {
                    let n = self.s.pick(&["quote", "abstract"]);
                    let b = self.tdoc(d.saturating_sub(1), 4, false);
                    T::Quote(n, b)
                }
                5 => self.tlist(d - 1),
                _ => T::Break,
            };
            let block = matches!(t, T::Quote(..));
            push_t(&mut v, t);
            if block {
                push_t(&mut v, T::Blank("\n\n"));
            }
        }
        v
    }
    pub fn table(&mut self, d: usize) -> Table {
        let cols = self.many(1, 4);
        let mut spec = String::new();
        for i in 0..=cols {
            for _ in 0..self.s.weighted(&[3, 2, 1]) {
                spec.push('|');
            }
            if self.s.chance(1, 6) {
                spec.push(' ');
            }
            if i < cols {
                spec.push_str(self.s.pick(&["c", "l", "r"]));
            }
        }
        let nrows = self.many(1, 4);
        let rules = |g: &mut Self| (0..g.s.weighted(&[3, 2, 1])).map(|_| g.s.of(RULES).0).collect::<Vec<_>>();
        let rows = (0..nrows)
            .map(|_| {
                let r = rules(self);
                let n = if self.s.chance(1, 6) { self.s.range(1, cols) } else { cols };
                let cells = (0..n)
                    .map(|_| {
                        if d > 1 && self.s.chance(1, 25) {
                            let t = self.table(d - 2);
                            return vec![T::Table(t)];
                        }
                        // (an apostrophe would be a prime of a rule before it)
                        no_prime(trim(self.tinline(d.saturating_sub(1), 3)))
                    })
                    .collect();
                (r, cells)
            })
            .collect();
        let end = if self.s.chance(1, 2) { Some(rules(self)) } else { None };
        Table { spec, rows, end }
    }
    pub fn image(&mut self) -> T {
        let path = self.s.pick(&["a.png", "example-image", "fig/plot 1.pdf", "x_y.svg", "../a&b.jpg", "im#1.png", "a\"b.png", "fig\\plot.png"]).to_string();
        let n = self.s.weighted(&[2, 3, 2, 1]);
        let mut opts: Vec<(&str, &str)> = (0..n)
            .map(|_| {
                let k = self.s.pick(&["width", "height", "angle", "scale", "trim", "clip", "keepaspectratio"]);
                let v = match k {
                    "width" | "height" => self.s.pick(&["3cm", "0.5\\textwidth", "\\textwidth", "10pt", ".8\\textheight", "\\textheight", "2.5in"]),
                    "clip" | "keepaspectratio" => "",
                    _ => self.s.pick(&["45", "0.5", "true"]),
                };
                (k, v)
            })
            .collect();
        opts.sort();
        opts.dedup_by_key(|o| o.0);
        T::Image(path, opts)
    }
    pub fn figure(&mut self, d: usize) -> Figure {
        let n = self.many(1, 3);
        let mut body = vec![];
        for _ in 0..n {
            match self.s.below(4) {
                0 => body.push(self.image()),
                1 => {
                    let t = self.table(d.min(2));
                    body.push(T::Table(t))
                }
                2 => {
                    let e = self.env_only(1);
                    body.push(T::EnvMath(e, None))
                }
                _ => {
                    // (an apostrophe would be a prime of \caption)
                    let t = self.tinline(d.saturating_sub(1), 3);
                    for t in t.into_iter().filter(|t| !matches!(t, T::Punct("'" | "[", _))) {
                        push_t(&mut body, t);
                    }
                }
            }
            push_t(&mut body, T::Blank("\n"));
        }
        let caption = if self.s.chance(3, 4) { Some(trim(self.tinline(d.saturating_sub(1), 4))) } else { None };
        let label = if self.s.chance(1, 2) { Some(self.s.pick(LABELS).to_string()) } else { None };
        let k = body.len() + 1;
        // each of them on a line of its own
        let at = [self.s.below(k), self.s.below(k), self.s.below(k)];
        Figure { name: self.s.pick(&["figure", "table"]), opt: self.s.pick(&["", "[h]", "[htbp!]"]), caption, body, label, at, centering: self.s.chance(1, 2) }
    }
    pub fn tlist(&mut self, d: usize) -> T {
        let en = self.s.chance(1, 2);
        let n = self.many(1, 3);
        let items = (0..n)
            .map(|_| {
                let mut v = self.tinline(d.min(2), 3);
                if d > 0 && self.s.chance(1, 3) {
                    let l = self.tlist(d - 1);
                    v.push(l);
                    if self.s.chance(1, 4) {
                        v.push(T::Blank("\n"));
                        v.push(T::Word("after".into()));
                    }
                }
                if self.s.chance(1, 5) {
                    // another paragraph of the item
                    push_t(&mut v, T::Blank(self.s.pick(&["\n\n", "\n \n"])));
                    v.push(T::Word(self.s.pick(&["then", "-", "1.", "so"]).into()));
                }
                v
            })
            .collect();
        T::List(en, items)
    }
}
pub fn no_prime(mut v: Vec<T>) -> Vec<T> {
    while matches!(v.first(), Some(T::Punct("'" | "[", _) | T::Blank(_))) {
        v.remove(0);
    }
    let mut o: Vec<T> = vec![];
    for t in v {
        if matches!(t, T::Punct("'", _)) && !matches!(o.last(), Some(T::Word(_) | T::Inline(..) | T::Group(_) | T::Cmd(..))) {
            continue;
        }
        push_t(&mut o, t);
    }
    o
}
pub fn trim(mut v: Vec<T>) -> Vec<T> {
    while matches!(v.first(), Some(T::Blank(_))) {
        v.remove(0);
    }
    while matches!(v.last(), Some(T::Blank(_))) {
        v.pop();
    }
    v
}
/// no two blanks in a row
pub fn push_t(v: &mut Vec<T>, t: T) {
    if let (Some(T::Blank(a)), T::Blank(b)) = (v.last(), &t) {
        if b.len() > a.len() {
            v.pop();
            v.push(t);
        }
        return;
    }
    v.push(t);
}
fn loop_arg(g: &mut Gen, d: usize) -> Arg {
    // \sqrt takes a group, a letter or a command
    g.arg(d)
}

// ------------------------------------------------------------------ LaTeX
/// Free layout: which blanks and comments are put where LaTeX ignores them.
pub struct Tex<'a> {
    pub out: String,
    pub s: Option<&'a mut Src>,
    pub comments: bool,
}
impl<'a> Tex<'a> {
    pub fn plain() -> Tex<'static> {
        Tex { out: String::new(), s: None, comments: false }
    }
    pub fn noisy(s: &'a mut Src) -> Tex<'a> {
        Tex { out: String::new(), s: Some(s), comments: true }
    }
    /// an ignorable place
    pub fn gap(&mut self) {
        let comments = self.comments;
        if let Some(s) = self.s.as_mut() {
            if s.chance(1, 3) {
                let t = match s.weighted(&[5, 2, 1, if comments { 2 } else { 0 }]) {
                    0 => " ",
                    1 => "\n",
                    2 => s.pick(&["  ", "\t", " \n ", "\r\n"]),
                    _ => s.pick(&["%\n", "% c }{ $ \\end{x}\n", " %x\n  ", "%\\iffalse\r\n"]),
                };
                self.out.push_str(t);
            }
        }
    }
    /// Appends, separating a control word from following letters.
    pub fn put(&mut self, t: &str) {
        let Some(c) = t.chars().next() else { return };
        if c.is_ascii_alphabetic() || c == '@' || c == '*' {
            let head = self.out.trim_end_matches(|c: char| c.is_ascii_alphabetic() || c == '@');
            let tail = &self.out[head.len()..];
            let bs = head.len() - head.trim_end_matches('\\').len();
            if bs % 2 == 1 && !tail.is_empty() {
                self.out.push(' ');
            }
        }
        self.out.push_str(t);
    }
    pub fn list(&mut self, v: &[M]) {
        for m in v {
            self.gap();
            self.item(m);
        }
        self.gap();
    }
    fn arg(&mut self, a: &Arg) {
        self.gap();
        match a {
            Arg::Braced(v) => {
                self.put("{");
                self.list(v);
                self.put("}");
            }
            Arg::Bare(m) => self.item(m),
        }
    }
    fn marks(&mut self, v: &[(char, Arg)]) {
        for (c, a) in v {
            self.gap();
            self.put(&c.to_string());
            if *c != '\'' {
                self.arg(a);
            }
        }
    }
    fn color(&mut self, name: &str, model: &Option<&str>, c: &str) {
        self.put(&format!("\\{name}"));
        if let Some(m) = model {
            self.gap();
            self.put(&format!("[{m}]"));
            self.gap();
            self.put("{0.5}");
        } else {
            self.gap();
            self.put(&format!("{{{c}}}"));
        }
    }
    pub fn item(&mut self, m: &M) {
        match m {
            M::Word(w) => self.put(w),
            M::Punct(t, _) => self.put(t),
            M::Sym(n) => self.put(&format!("\\{}", if n.is_empty() { " " } else { n })),
            M::Cmd(n, args) => {
                self.put(&format!("\\{n}"));
                for a in args {
                    self.arg(a);
                }
            }
            M::Sqrt(idx, a) => {
                self.put("\\sqrt");
                if let Some(i) = idx {
                    self.gap();
                    self.put("[");
                    self.list(i);
                    self.put("]");
                }
                self.arg(a);
            }
            M::TextCmd(n, t) => {
                self.put(&format!("\\{n}"));
                self.gap();
                self.put("{");
                self.texts(t);
                self.put("}");
            }
            M::Group(v) => {
                self.put("{");
                self.list(v);
                self.put("}");
            }
            M::Script(b, primes, marks) => {
                if let Some(b) = b {
                    self.item(b);
                }
                for _ in 0..*primes {
                    self.put("'");
                }
                self.marks(marks);
            }
            M::Limits(b, n, marks) => {
                self.item(b);
                self.gap();
                self.put(&format!("\\{n}"));
                self.marks(marks);
            }
            M::Lr(l, r, body) => {
                self.put("\\left");
                self.gap();
                self.delim(l);
                self.list(body);
                self.put("\\right");
                self.gap();
                self.delim(r);
            }
            M::Infix(n, l, r) => {
                self.list(l);
                self.put(&format!("\\{n}"));
                self.list(r);
            }
            M::Greedy(n, v) => {
                self.put(&format!("\\{n}"));
                self.list(v);
            }
            M::Color(model, c, v) => {
                self.color("color", model, c);
                self.list(v);
            }
            M::ColorCmd(n, model, c, a) => {
                self.color(n, model, c);
                self.arg(a);
            }
            M::Break => self.put("\\\\"),
            M::Env(n, arg, rows, nl) => self.env(n, arg, rows, *nl, None),
            M::Substack(rows) => {
                self.put("\\substack");
                self.gap();
                self.put("{");
                for (i, r) in rows.iter().enumerate() {
                    if i > 0 {
                        self.put("\\\\");
                    }
                    self.list(r);
                }
                self.put("}");
            }
        }
    }
    fn delim(&mut self, d: &Delim) {
        if d.1.is_empty() {
            self.put(&format!("\\{}", if d.0.is_empty() { " " } else { d.0 }));
        } else {
            self.put(d.0);
        }
    }
    fn env(&mut self, n: &str, arg: &Option<Vec<M>>, rows: &[Vec<Vec<M>>], nl: bool, label: Option<&str>) {
        self.put("\\begin");
        self.gap();
        self.put(&format!("{{{n}"));
        self.gap();
        self.put("}");
        if let Some(a) = arg {
            self.gap();
            self.put("{");
            self.list(a);
            self.put("}");
        }
        // a mark without base must stay without
        let mut first = Tex::plain();
        first.list(&rows[0][0]);
        let late = first.out.starts_with(['_', '^', '\'']);
        if !late {
            if let Some(l) = label {
                self.label(l);
            }
        }
        for (i, row) in rows.iter().enumerate() {
            if i > 0 {
                self.put("\\\\");
            }
            for (j, cell) in row.iter().enumerate() {
                if j > 0 {
                    self.put("&");
                }
                self.list(cell);
            }
        }
        if nl {
            self.put("\\\\");
            self.gap();
        }
        if late {
            if let Some(l) = label {
                self.label(l);
            }
        }
        self.put(&format!("\\end{{{n}}}"));
    }
    /// `$a$$b$` is not understood as two formulas
    fn split_dollar(&mut self, st: bool) {
        if !st && self.out.ends_with('$') {
            self.put("{}");
        }
    }
    fn label(&mut self, l: &str) {
        self.put("\\label");
        self.gap();
        self.put("{");
        self.blanks();
        self.put(l);
        self.blanks();
        self.put("}");
    }
    /// like a gap, but a comment would be part of a name
    fn blanks(&mut self) {
        let comments = std::mem::replace(&mut self.comments, false);
        self.gap();
        self.comments = comments;
    }
    // -------------------------------------------------------------- text
    pub fn texts(&mut self, v: &[T]) {
        for (i, t) in v.iter().enumerate() {
            self.text(t);
            let next = v.get(i + 1);
            let words = next.is_some_and(|n| word_src(t).is_some() && word_src(n).is_some());
            if words || matches!(next, Some(T::Blank(_))) || !self.comments {
                continue;
            }
            if let Some(s) = self.s.as_mut() {
                if s.chance(1, 8) {
                    let c = s.pick(&["%\n", "% x } {\n", "%$ \\end{a}\n  ", "%\\item\r\n\t"]);
                    self.out.push_str(c);
                }
            }
        }
    }
    fn text(&mut self, t: &T) {
        match t {
            T::Word(w) => {
                self.put(w)
            }
            T::Punct(a, _) => {
                // an opening bracket must not be taken for an argument of \\
                self.put(a)
            }
            T::Blank(b) => {
                let par = b.matches('\n').count() > 1;
                let mut b = *b;
                if let Some(s) = self.s.as_mut() {
                    if s.chance(1, 3) {
                        b = if par {
                            s.pick(&["\n\n", "\n \t\n\n", "\r\n\r\n"])
                        } else {
                            s.pick(&[" ", "\n", "   ", " \n ", "\t", "\r\n  "])
                        };
                    }
                }
                self.put(b);
            }
            T::Break => self.put("\\\\"),
            T::Cmd(n, args) => {
                self.put(&format!("\\{n}"));
                for a in args {
                    self.gap();
                    self.put("{");
                    self.texts(a);
                    self.put("}");
                }
            }
            T::Group(v) => {
                self.put("{");
                self.texts(v);
                self.put("}");
            }
            T::Inline(st, m) => {
                self.split_dollar(*st);
                self.put(if *st { "\\(" } else { "$" });
                let at = self.out.len();
                self.list(m);
                if !*st && self.out.len() == at {
                    self.put(" "); // not $$
                }
                self.put(if *st { "\\)" } else { "$" });
            }
            T::Display(st, m) => {
                self.split_dollar(*st);
                self.put(if *st { "\\[" } else { "$$" });
                self.list(m);
                self.put(if *st { "\\]" } else { "$$" });
            }
            T::EnvMath(m, label) => {
                if let M::Env(n, a, r, nl) = m {
                    self.env(n, a, r, *nl, label.as_deref());
                }
            }
            T::Quote(n, v) => {
                self.put(&format!("\\begin{{{n}}}"));
                self.texts(v);
                self.put(&format!("\\end{{{n}}}"));
            }
            T::List(en, items) => {
                let n = if *en { "enumerate" } else { "itemize" };
                self.put(&format!("\\begin{{{n}}}"));
                for i in items {
                    self.put("\\item ");
                    self.texts(i);
                }
                self.put(&format!("\\end{{{n}}}"));
            }
            T::Color(n, model, c, v) => {
                self.color(n, model, c);
                self.gap();
                self.put("{");
                self.texts(v);
                self.put("}");
            }
            T::Raw(r) => self.put(r),
            T::ColorRest(model, c, v) => {
                self.put("{");
                self.color("color", model, c);
                self.texts(v);
                self.put("}");
            }
            T::Label(l) => {
                self.label(l);
            }
            T::Image(path, opts) => {
                self.put("\\includegraphics");
                self.gap();
                if !opts.is_empty() {
                    let sep = if self.s.as_mut().is_some_and(|s| s.chance(1, 3)) { " , " } else { "," };
                    let o: Vec<String> = opts.iter().map(|(k, v)| if v.is_empty() { k.to_string() } else { format!("{k}={v}") }).collect();
                    self.put(&format!("[{}]", o.join(sep)));
                    self.gap();
                }
                self.put(&format!("{{{path}}}"));
            }
            T::Table(t) => self.table(t),
            T::Figure(v) => {
                self.put(&format!("\\begin{{{}}}{}", v.name, v.opt));
                self.out.push('\n');
                let on = |g: &mut Self, i: usize| {
                    if v.at[2] == i && v.centering {
                        g.put("\\centering\n");
                    }
                    if v.at[0] == i {
                        if let Some(c) = &v.caption {
                            g.put("\\caption");
                            g.gap();
                            g.put("{");
                            g.texts(c);
                            g.put("}\n");
                        }
                    }
                    if v.at[1] == i {
                        if let Some(l) = &v.label {
                            g.label(l);
                            g.put("\n");
                        }
                    }
                };
                for (i, t) in v.body.iter().enumerate() {
                    on(self, i);
                    self.text(t);
                }
                on(self, v.body.len());
                self.put(&format!("\\end{{{}}}", v.name));
            }
        }
    }
    fn table(&mut self, t: &Table) {
        self.put("\\begin{tabular}");
        self.gap();
        self.put(&format!("{{{}}}", t.spec));
        self.gap();
        let rules = |g: &mut Self, r: &[&str]| {
            for r in r {
                g.gap();
                g.put(&format!("\\{r}"));
                g.gap();
            }
        };
        for (i, (r, cells)) in t.rows.iter().enumerate() {
            if i > 0 {
                self.put("\\\\");
            }
            rules(self, r);
            for (j, c) in cells.iter().enumerate() {
                if j > 0 {
                    self.put("&");
                    self.gap();
                }
                self.texts(c);
                self.gap();
            }
        }
        if let Some(r) = &t.end {
            self.put("\\\\");
            rules(self, r);
        }
        self.put("\\end{tabular}");
    }
}

// ------------------------------------------------------------------ Typst
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sep {
    Plain,
    Matrix,
    Cases,
}
pub fn sep_of(env: &str) -> Sep {
    if let Some(k) = OVER_SEP.with(|o| o.borrow().get(env).copied()) {
        return [Sep::Matrix, Sep::Cases, Sep::Plain][k];
    }
    if MATRICES.contains(&env) || env == "array" || env == "subarray" {
        Sep::Matrix
    } else if env == "cases" || env == "rcases" {
        Sep::Cases
    } else {
        Sep::Plain
    }
}

pub fn typ_list(v: &[M]) -> String {
    v.iter().map(typ).collect()
}
fn typ_arg(a: &Arg) -> String {
    match a {
        Arg::Braced(v) => typ_group(v),
        Arg::Bare(m) => typ_group(std::slice::from_ref(m)),
    }
}
/// converts to nothing
pub fn blank(m: &M) -> bool {
    matches!(m, M::Sym(n) if alias(n).is_empty())
}
fn typ_group(v: &[M]) -> String {
    if v.iter().all(blank) {
        "zws ".into()
    } else {
        typ_list(v)
    }
}
fn typ_marks(v: &[(char, Arg)]) -> String {
    v.iter().map(|(c, a)| if *c == '\'' { "'".into() } else { format!("{c}({})", if let Arg::Bare(m) = a { typ(m) } else { typ_arg(a) }) }).collect()
}
fn typ_color(name: &str, model: &Option<&str>, c: &str) -> String {
    match model {
        Some(m) => format!("{}([{m}], [0.5])", alias(name)),
        None => format!("{}(none, [{c}])", alias(name)),
    }
}
fn dollars(body: &str) -> String {
    format!("${body}$")
}
pub fn typ(m: &M) -> String {
    match m {
        M::Word(w) => w.chars().map(|c| format!("{c} ")).collect(),
        M::Punct(_, t) => t.to_string(),
        M::Sym(n) => format!("{} ", alias(n)),
        M::Cmd(n, args) => {
            let a: Vec<String> = args.iter().map(typ_arg).collect();
            format!("{}({})", alias(n), a.join(","))
        }
        M::Sqrt(i, a) => match i {
            Some(i) => format!("{}(\\[{}\\],{})", alias("sqrt"), typ_group(i), typ_arg(a)),
            None => format!("{}({})", alias("sqrt"), typ_arg(a)),
        },
        M::TextCmd(n, t) => format!("{}[{}];", alias(n), typ_texts(t)),
        M::Group(v) => typ_group(v),
        M::Script(b, primes, marks) => {
            let b = match b {
                // (a prime stands by itself)
                Some(b) if blank(b) && *primes == 0 && !marks.is_empty() => " zws".to_string(),
                Some(b) => typ(b),
                None => "zws".to_string(),
            };
            let marks = if b == "zws" {
                // every mark has an empty base of its own
                return marks.iter().map(|m| if m.0 == '\'' { "'".into() } else { format!("zws{}", typ_marks(std::slice::from_ref(m))) }).collect();
            } else {
                typ_marks(marks)
            };
            format!("{b}{}{marks}", "'".repeat(*primes))
        }
        M::Limits(b, n, marks) => format!("{}({}){}", alias(n), typ_group(std::slice::from_ref(b)), typ_marks(marks)),
        M::Lr(l, r, body) => format!("lr({}{}{})", typ_delim(l), typ_list(body), typ_delim(r)),
        M::Infix(n, l, r) => {
            // (nothing on the left is left out)
            format!("{}({},{})", alias(n), typ_list(l), typ_group(r))
        },
        M::Greedy(n, v) => format!("{}({})", alias(n), typ_list(v)),
        M::Color(model, c, v) => format!("{}[{}]", typ_color("color", model, c), dollars(&typ_list(v))),
        M::ColorCmd(n, model, c, a) => format!("{}[{}]", typ_color(n, model, c), dollars(&typ_arg(a))),
        M::Env(n, arg, rows, nl) => {
            let sep = sep_of(n);
            let (col, row) = match sep {
                Sep::Plain => ("&", "\\ "),
                Sep::Matrix => ("zws ,", "zws ;"),
                Sep::Cases => ("&", ","),
            };
            let mut o = format!("{}(", env_alias(n));
            if let Some(a) = arg {
                o += &format!("arg0: {},", typ_list(a));
            }
            let r: Vec<String> =
                rows.iter().map(|r| r.iter().map(|c| typ_list(c)).collect::<Vec<_>>().join(col)).collect();
            o += &r.join(row);
            if *nl {
                o += row;
            }
            o + ")"
        }
        M::Substack(rows) => {
            // one argument: an empty group is not left empty
            let r: Vec<String> = rows.iter().map(|r| typ_list(r)).collect();
            let body = if rows.len() == 1 && rows[0].iter().all(blank) { "zws ".to_string() } else { r.join("\\ ") };
            format!("{}({})", alias("substack"), body)
        }
        M::Break => String::new(),
    }
}
fn typ_delim(d: &Delim) -> String {
    if d.1.is_empty() {
        format!("{} ", alias(d.0))
    } else {
        d.1.to_string()
    }
}

/// stands for a brace, which leaves nothing but separates blanks
const NIL: char = '\u{1}';
pub fn typ_texts(v: &[T]) -> String {
    let t = typ_texts_(v, 0);
    let mut o = String::new();
    let mut rest = t.as_str();
    while let Some(c) = rest.chars().next() {
        let run = |c: char| c.is_whitespace() || c == NIL;
        if !run(c) {
            o.push(c);
            rest = &rest[c.len_utf8()..];
            if c == '\\' {
                // an escape
                let n = rest.chars().next().map_or(0, |c| if c == NIL { 0 } else { c.len_utf8() });
                o.push_str(&rest[..n]);
                rest = &rest[n..];
            }
            continue;
        }
        let n = rest.find(|c| !run(c)).unwrap_or(rest.len());
        let (blank, tail) = rest.split_at(n);
        rest = tail;
        if !blank.contains(NIL) {
            o.push_str(blank);
            continue;
        }
        let lines = blank.split(NIL).map(|s| s.matches('\n').count()).max().unwrap_or(0);
        o.push_str(match lines {
            0 if blank.chars().all(|c| c == NIL) => "",
            0 => " ",
            1 => "\n",
            _ => "\n\n",
        });
    }
    o
}
/// The source of a piece that consists of word characters
fn word_src(t: &T) -> Option<&str> {
    match t {
        T::Word(w) => Some(w),
        T::Punct(p @ ("." | "!" | "?" | ":" | "`" | "<"), _) => Some(p),
        _ => None,
    }
}
/// Escapes a word as Typst markup
pub fn typ_word(w: &str) -> String {
    let list = w == "-" || w == "+" || w.chars().all(|c| c == '=');
    let num = w.len() > 1 && w.ends_with('.') && w[..w.len() - 1].bytes().all(|b| b.is_ascii_digit());
    let mut o = String::new();
    for (i, c) in w.char_indices() {
        if c == '`' || c == '<' || ((list || num) && i + 1 == w.len()) {
            o.push('\\');
        }
        o.push(c);
    }
    o
}
fn typ_texts_(v: &[T], indent: usize) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            T::Word(_) | T::Punct(..) => {
                // adjacent word characters are one word
                let mut run = String::new();
                while let Some(w) = v.get(i).and_then(word_src) {
                    run.push_str(w);
                    i += 1;
                }
                if run.is_empty() {
                    if let T::Punct(_, p) = &v[i] {
                        o.push_str(p);
                    }
                } else {
                    o.push_str(&typ_word(&run));
                    continue;
                }
            }
            T::Blank(b) => o.push_str(b),
            T::Break => o.push_str("\\ "),
            T::Cmd(n, args) => {
                let t = TCMDS.iter().find(|x| x.0 == *n).map(|x| x.1.to_string()).unwrap_or_else(|| alias(n));
                o.push_str(&t);
                for a in args {
                    o.push_str(&format!("[{}]", typ_texts_(a, indent)));
                }
                o.push(';');
            }
            T::Group(v) => {
                o.push(NIL);
                o.push_str(&typ_texts_(v, indent));
                o.push(NIL);
            }
            T::Inline(_, m) => o.push_str(&format!("#math.equation(block: false, ${}$);", typ_list(m))),
            T::Display(_, m) => o.push_str(&format!("$ {} $", typ_list(m))),
            T::EnvMath(m, l) => {
                o.push_str(&format!("$ {} $", typ(m)));
                if let Some(l) = l {
                    o.push_str(&format!("<{l}>"));
                }
            }
            T::Quote(n, v) => o.push_str(&format!("#{}[{}];", env_alias(n), typ_texts_(v, indent))),
            T::List(en, items) => {
                for it in items {
                    o.push('\n');
                    o.push_str(&" ".repeat(indent));
                    o.push_str(if *en { "+ " } else { "- " });
                    o.push_str(&typ_texts_(it, indent + 2));
                }
            }
            T::Color(n, model, c, v) => {
                o.push_str(&format!("{}[{}];", typ_color(n, model, c), typ_texts_(v, indent)));
            }
            T::Raw(r) => o.push_str(r),
            T::ColorRest(model, c, v) => {
                o.push(NIL);
                o.push_str(&format!("{}[{}];", typ_color("color", model, c), typ_texts_(v, indent)));
                o.push(NIL);
            }
            T::Label(l) => o.push_str(&format!("<{l}>")),
            T::Image(path, opts) => o.push_str(&typ_image(path, opts)),
            T::Table(t) => o.push_str(&typ_table(t, indent)),
            T::Figure(v) => {
                let c = v.caption.as_ref().map(|c| format!("caption: [{}],", typ_texts_(c, indent))).unwrap_or_default();
                o.push_str(&format!("#{}({c})[{}];", env_alias(v.name), typ_texts_(&v.body, indent)));
                if let Some(l) = &v.label {
                    o.push_str(&format!("<{l}>"));
                }
            }
        }
        i += 1;
    }
    o
}

fn typ_image(path: &str, opts: &[(&str, &str)]) -> String {
    let mut o = String::from("#image(");
    for (k, v) in opts {
        if matches!(*k, "width" | "height") {
            let v = match v.split_once('\\') {
                Some(("", _)) => "100%".to_string(),
                Some((n, _)) => format!("{n} * 100%"),
                None => v.to_string(),
            };
            o.push_str(&format!("{k}: {v}, "));
        }
    }
    let path = path.replace('\\', "\\\\").replace('"', "\\\"");
    o + &format!("\"{path}\")")
}
fn typ_table(t: &Table, indent: usize) -> String {
    let cols = t.spec.chars().filter(|c| c.is_alphabetic()).count();
    let mut o = format!("#{}(stroke: none, columns: {cols}, align: (", env_alias("tabular"));
    let mut lines = String::new();
    let mut i = 0;
    for c in t.spec.chars() {
        let a = match c {
            'l' => "left, ",
            'c' => "center, ",
            'r' => "right, ",
            '|' => {
                lines.push_str(&format!("table.vline(stroke: .5pt, x: {i}), "));
                continue;
            }
            _ => continue,
        };
        o.push_str(a);
        i += 1;
    }
    o.push_str("), ");
    o.push_str(&lines);
    let rules = |o: &mut String, r: &[&str]| {
        for r in r {
            let (_, w) = RULES.iter().find(|x| x.0 == *r).unwrap();
            o.push_str(&format!("table.hline(stroke: {w}), "));
        }
    };
    for (k, (r, cells)) in t.rows.iter().enumerate() {
        rules(&mut o, r);
        let last = k + 1 == t.rows.len() && t.end.is_none();
        for (j, c) in cells.iter().enumerate() {
            if last && j + 1 == cells.len() && c.is_empty() {
                break; // the table ends
            }
            let end = if last && j + 1 == cells.len() { "" } else { ", " };
            o.push_str(&format!("[{}]{end}", typ_texts_(c, indent)));
        }
        for _ in cells.len()..if last { 0 } else { cols } {
            o.push_str("[], ");
        }
    }
    if let Some(r) = &t.end {
        rules(&mut o, r);
    }
    o + ");"
}

// ------------------------------------------------------------------ normal form
/// Significant tokens of Typst code, insignificant blanks dropped.
struct Norm<'a> {
    c: Vec<char>,
    i: usize,
    out: Vec<String>,
    greedy: &'a [String],
    /// inside of a colour command of a formula, which puts its body in dollars
    wrapped: bool,
}
fn is_word(c: char) -> bool {
    c.is_alphanumeric()
}
impl Norm<'_> {
    fn peek(&self, k: usize) -> Option<char> {
        self.c.get(self.i + k).copied()
    }
    fn emit(&mut self, s: impl Into<String>) {
        self.out.push(s.into());
    }
    fn escape(&mut self) {
        let mut t = String::from("\\");
        self.i += 1;
        if let Some(c) = self.peek(0) {
            t.push(if c.is_whitespace() { ' ' } else { c });
            self.i += 1;
        }
        self.emit(t);
    }
    /// math until an unmatched `$`, or the end; `paren`: until `)`
    fn math(&mut self, in_call: Option<bool>) {
        while let Some(c) = self.peek(0) {
            match c {
                '$' => return,
                ')' if in_call.is_some() => {
                    self.i += 1;
                    self.emit(")");
                    return;
                }
                '\\' => self.escape(),
                '#' => self.code(true),
                ',' if in_call == Some(true) => self.i += 1,
                c if c.is_whitespace() => self.i += 1,
                c if is_word(c) => {
                    let mut w = String::new();
                    while let Some(c) = self.peek(0) {
                        if is_word(c) || (c == '.' && self.peek(1).is_some_and(is_word)) {
                            w.push(c);
                            self.i += 1;
                        } else {
                            break;
                        }
                    }
                    if self.peek(0) == Some('(') {
                        let g = self.greedy.contains(&w);
                        self.emit(format!("{w}("));
                        self.i += 1;
                        self.math(Some(g));
                    } else {
                        self.emit(w);
                    }
                }
                '(' => {
                    self.i += 1;
                    self.emit("(");
                    self.math(Some(false));
                }
                c => {
                    self.i += 1;
                    self.emit(c.to_string());
                }
            }
        }
    }
    /// `#name(..)[..];`
    fn code(&mut self, math: bool) {
        self.i += 1;
        let mut w = String::from("#");
        while let Some(c) = self.peek(0) {
            if is_word(c) || c == '-' || c == '_' || (c == '.' && self.peek(1).is_some_and(|c| c.is_alphabetic())) {
                w.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        let outer = std::mem::replace(&mut self.wrapped, math && w.contains("color"));
        self.emit(w);
        loop {
            match self.peek(0) {
                Some('(') => self.args(),
                Some('[') => {
                    self.emit("[");
                    self.i += 1;
                    self.markup(true);
                }
                Some(';') => {
                    self.emit("END");
                    self.i += 1;
                    break;
                }
                _ => {
                    self.emit("END");
                    break;
                }
            }
        }
        self.wrapped = outer;
    }
    fn args(&mut self) {
        let outer = std::mem::replace(&mut self.wrapped, false);
        self.args_();
        self.wrapped = outer;
    }
    fn args_(&mut self) {
        self.emit("(");
        self.i += 1;
        while let Some(c) = self.peek(0) {
            match c {
                ')' => {
                    self.i += 1;
                    self.emit(")");
                    return;
                }
                '(' => self.args(),
                '[' => {
                    self.emit("[");
                    self.i += 1;
                    self.markup(true);
                }
                '$' => {
                    self.i += 1;
                    self.emit("$");
                    self.math(None);
                    self.i += 1;
                    self.emit("$");
                }
                '"' => {
                    let mut t = String::from("\"");
                    self.i += 1;
                    while let Some(c) = self.peek(0) {
                        t.push(c);
                        self.i += 1;
                        if c == '"' {
                            break;
                        }
                    }
                    self.emit(t);
                }
                c if c.is_whitespace() => self.i += 1,
                c if is_word(c) || c == '-' => {
                    let mut w = String::new();
                    while let Some(c) = self.peek(0) {
                        if is_word(c) || c == '-' || c == '.' || c == '%' {
                            w.push(c);
                            self.i += 1;
                        } else {
                            break;
                        }
                    }
                    self.emit(w);
                }
                c => {
                    self.i += 1;
                    self.emit(c.to_string());
                }
            }
        }
    }
    fn markup(&mut self, content: bool) {
        let from = self.out.len();
        while let Some(c) = self.peek(0) {
            match c {
                ']' if content => {
                    self.i += 1;
                    while self.out.len() > from && ["SP", "NL"].contains(&self.out.last().unwrap().as_str()) {
                        self.out.pop();
                    }
                    self.emit("]");
                    return;
                }
                '\\' => self.escape(),
                '#' => self.code(false),
                '$' => {
                    // adjacent formulas `$a$$b$` are one; blank ones nothing
                    let display = self.peek(1).is_some_and(|c| c.is_whitespace());
                    self.emit(if display { "D$" } else { "$" });
                    let start = self.out.len() - 1;
                    let at = self.i;
                    self.i += 1;
                    self.math(None);
                    let display = !self.wrapped && display && self.i > 1 && self.c.get(self.i - 1).is_some_and(|c| c.is_whitespace()) && self.i > at + 2;
                    self.out[start] = if display { "D$".into() } else { "$".into() };
                    while self.wrapped && self.peek(0) == Some('$') && self.peek(1) == Some('$') {
                        self.i += 2;
                        self.math(None);
                        self.out[start] = "$".into();
                    }
                    self.i += 1;
                    if self.wrapped && self.out.len() == start + 1 {
                        self.out.truncate(start); // an empty formula
                    } else {
                        self.emit("$");
                    }
                    if display {
                        // a block, blanks after it do not matter
                        if self.peek(0) == Some('<') {
                            let mut l = String::new();
                            while let Some(c) = self.peek(0) {
                                l.push(c);
                                self.i += 1;
                                if c == '>' {
                                    break;
                                }
                            }
                            self.emit(l);
                        }
                        let at = self.i;
                        let mut n = 0;
                        while let Some(c) = self.peek(0).filter(|c| c.is_whitespace()) {
                            n += (c == '\n') as usize;
                            self.i += 1;
                        }
                        if n > 1 {
                            self.i = at;
                        }
                    }
                }
                '[' => {
                    self.emit("[");
                    self.i += 1;
                    self.markup(true);
                }
                c if c.is_whitespace() => {
                    let mut n = 0;
                    while let Some(c) = self.peek(0).filter(|c| c.is_whitespace()) {
                        if c == '\n' || (c == '\r' && self.peek(1) != Some('\n')) {
                            n += 1;
                        }
                        self.i += 1;
                    }
                    let t = match n {
                        0 => "SP",
                        1 => "NL",
                        _ => "PAR",
                    };
                    if self.out.len() > from || !content {
                        self.emit(t);
                    } else if t == "PAR" {
                        self.emit(t);
                    }
                }
                c if is_word(c) => {
                    let mut w = String::new();
                    while let Some(c) = self.peek(0).filter(|c| is_word(*c)) {
                        w.push(c);
                        self.i += 1;
                    }
                    self.emit(w);
                }
                c => {
                    self.i += 1;
                    self.emit(c.to_string());
                }
            }
        }
    }
}
fn greedy_names() -> Vec<String> {
    GREEDY.iter().map(|g| alias(g)).collect()
}
pub fn norm_math(s: &str) -> String {
    let g = greedy_names();
    let mut n = Norm { c: s.chars().collect(), i: 0, out: vec![], greedy: &g, wrapped: false };
    loop {
        n.math(None);
        if n.peek(0).is_some() {
            n.i += 1;
            n.emit("$!");
        } else {
            break;
        }
    }
    n.out.join(" ")
}
/// a space and a line break are the same
pub fn soft(s: &str) -> String {
    s.split(' ').map(|t| if t == "NL" { "SP" } else { t }).collect::<Vec<_>>().join(" ")
}
pub fn norm_text(s: &str) -> String {
    let g = greedy_names();
    let mut n = Norm { c: s.chars().collect(), i: 0, out: vec![], greedy: &g, wrapped: false };
    n.markup(false);
    n.out.join(" ")
}

// ------------------------------------------------------------------ meaning
/// What a document says, in the terms of `tsyn::events`.
pub fn events(v: &[T]) -> Vec<String> {
    let mut o = vec![];
    says(v, &mut o);
    o
}
fn says(v: &[T], o: &mut Vec<String>) {
    let from = o.len();
    for t in v {
        match t {
            T::Word(w) => crate::tsyn::push_chars(o, w),
            T::Punct(p, _) => crate::tsyn::push_chars(o, p.strip_prefix('\\').unwrap_or(p)),
            T::Blank(b) => {
                if b.matches('\n').count() > 1 && o.last().is_none_or(|x| x != "PAR") {
                    o.push("PAR".into());
                }
            }
            T::Break => o.push("BREAK".into()),
            T::Cmd(n, args) => {
                let t = TCMDS.iter().find(|x| x.0 == *n).map(|x| x.1).unwrap_or("?");
                o.push(format!("{} [", t.replace(' ', "")));
                for a in args {
                    says(a, o);
                    o.push("]".into());
                }
            }
            T::Group(v) => {
                for x in v {
                    says_one(x, o);
                }
            }
            T::Inline(..) | T::Display(..) => o.push("FORMULA".into()),
            T::EnvMath(_, l) => {
                o.push("FORMULA".into());
                if let Some(l) = l {
                    o.push(format!("LABEL <{l}>"));
                }
            }
            T::Quote(n, v) => {
                o.push(format!("#{} [", env_alias(n).replace(' ', "")));
                says(v, o);
                o.push("]".into());
            }
            T::List(en, items) => {
                for i in items {
                    o.push(if *en { "+ (" } else { "- (" }.to_string());
                    says(i, o);
                    o.push(")".into());
                }
            }
            T::Raw(r) => o.push(r.clone()),
            T::ColorRest(model, c, v) => {
                o.push(format!("{} [", typ_color("color", model, c).replace(' ', "")));
                says(v, o);
                o.push("]".into());
            }
            T::Label(l) => o.push(format!("LABEL <{l}>")),
            T::Image(p, opts) => {
                o.push(typ_image(p, opts).replace([' ', '\n'], ""));
            }
            T::Table(t) => says_table(t, o),
            T::Figure(v) => {
                o.push("#figure".to_string());
                if let Some(c) = &v.caption {
                    o.push("CAPTION [".into());
                    says(c, o);
                    o.push("]".into());
                }
                o.push("BODY [".into());
                says(&v.body, o);
                o.push("]".into());
                if let Some(l) = &v.label {
                    o.push(format!("LABEL <{l}>"));
                }
            }
            T::Color(n, model, c, v) => {
                o.push(format!("{} [", typ_color(n, model, c).replace(' ', "")));
                says(v, o);
                o.push("]".into());
            }
        }
    }
    while o.len() > from && o.last().is_some_and(|x| x == "PAR") {
        o.pop();
    }
    while o.get(from).is_some_and(|x| x == "PAR") {
        o.remove(from);
    }
}
/// the same as `typ_table`, in terms of what Typst reads
fn says_table(t: &Table, o: &mut Vec<String>) {
    let letters: Vec<char> = t.spec.chars().filter(|c| c.is_alphabetic()).collect();
    o.push("#table".into());
    o.push("stroke:none".into());
    o.push(format!("columns:{}", letters.len()));
    let a: String = letters.iter().map(|c| if *c == 'l' { "left," } else if *c == 'c' { "center," } else { "right," }).collect();
    o.push(format!("align:({a})"));
    let mut i = 0;
    for c in t.spec.chars() {
        if c == '|' {
            o.push(format!("table.vline(stroke:.5pt,x:{i})"));
        } else if c.is_alphabetic() {
            i += 1;
        }
    }
    let rules = |o: &mut Vec<String>, r: &[&str]| {
        for r in r {
            let (_, w) = RULES.iter().find(|x| x.0 == *r).unwrap();
            o.push(format!("table.hline(stroke:{w})"));
        }
    };
    for (k, (r, cells)) in t.rows.iter().enumerate() {
        rules(o, r);
        let last = k + 1 == t.rows.len() && t.end.is_none();
        for (j, c) in cells.iter().enumerate() {
            if last && j + 1 == cells.len() && c.is_empty() {
                break;
            }
            o.push("CELL [".into());
            says(c, o);
            o.push("]".into());
        }
        for _ in cells.len()..if last { 0 } else { letters.len() } {
            o.push("CELL [".into());
            o.push("]".into());
        }
    }
    if let Some(r) = &t.end {
        rules(o, r);
    }
    o.push("END".into());
}
fn says_one(t: &T, o: &mut Vec<String>) {
    let mut w = vec![];
    says(std::slice::from_ref(t), &mut w);
    o.append(&mut w);
}
