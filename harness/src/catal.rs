//! The catalogue of commands and environments, and formulas that use it.
use crate::doc::*;
use crate::*;
use mitex_spec::{ArgPattern, ArgShape, CommandSpecItem, ContextFeature};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::OnceLock;

// ------------------------------------------------------------- catalogue
/// name -> (documented long form, as exported)
pub struct Catalogue {
    pub long: BTreeMap<String, Value>,
    /// symbols: usable anywhere
    pub syms: Vec<&'static str>,
    /// the ones with something to show
    pub solid: Vec<&'static str>,
    /// by number of arguments
    pub cmds: Vec<Vec<&'static str>>,
    /// text commands
    pub texts: Vec<&'static str>,
    pub left: Vec<&'static str>,
    pub greedy: Vec<&'static str>,
    pub infix: Vec<&'static str>,
    /// matrix-like, cases-like, other formula environments: without and with an argument
    pub envs: [[Vec<&'static str>; 2]; 3],
    pub known: Vec<&'static str>,
}
/// Handled by themselves, in other properties.
pub const SPECIAL: &[&str] = &["item", "label", "includegraphics", "color", "textcolor", "colorbox", "substack", "hline", "toprule", "midrule", "bottomrule", "caption", "centering", "sqrt", "else", "fi", "begin", "end", "left", "right"];
pub fn special(n: &str) -> bool {
    let n = n.trim_end_matches('*');
    SPECIAL.contains(&n)
        || n.starts_with("if")
        || n == "@ifstar"
        || ["newcommand", "renewcommand", "providecommand", "DeclareRobustCommand", "newenvironment", "renewenvironment"].contains(&n)
}
/// What a shorthand stands for.
pub fn long(v: &Value) -> Value {
    let cmd = |args: Value, alias: &Value| json!({"kind": "cmd", "args": args, "alias": alias});
    let right = |p: Value| json!({"kind": "right", "pattern": p});
    let fixed = |n: u8| right(json!({"kind": "fixed-len", "len": n}));
    let none = &Value::Null;
    match v["kind"].as_str().unwrap_or("") {
        "sym" => cmd(right(json!({"kind": "none"})), none),
        "alias-sym" => cmd(right(json!({"kind": "none"})), &v["alias"]),
        "cmd0" => cmd(fixed(0), none),
        "cmd1" => cmd(fixed(1), none),
        "cmd2" => cmd(fixed(2), none),
        "left1-cmd" => cmd(json!({"kind": "left1"}), none),
        "greedy-cmd" => cmd(right(json!({"kind": "greedy"})), &v["alias"]),
        "infix-cmd" => cmd(json!({"kind": "infix-greedy"}), &v["alias"]),
        "glob-cmd" => cmd(right(json!({"kind": "glob", "pattern": v["pattern"]})), &v["alias"]),
        "glob-env" => json!({"kind": "env", "args": {"kind": "glob", "pattern": v["pattern"]}, "ctx_feature": v["ctx_feature"], "alias": v["alias"]}),
        "matrix-env" => json!({"kind": "env", "args": {"kind": "none"}, "ctx_feature": {"kind": "is-matrix"}, "alias": null}),
        "normal-env" => json!({"kind": "env", "args": {"kind": "none"}, "ctx_feature": {"kind": "none"}, "alias": null}),
        _ => v.clone(),
    }
}
/// The specification's own view, in the same terms.
pub fn described(i: &CommandSpecItem) -> Value {
    let pat = |p: &ArgPattern| match p {
        ArgPattern::None => json!({"kind": "none"}),
        ArgPattern::FixedLenTerm { len } => json!({"kind": "fixed-len", "len": len}),
        ArgPattern::RangeLenTerm { min, max } => json!({"kind": "range-len", "min": min, "max": max}),
        ArgPattern::Greedy => json!({"kind": "greedy"}),
        ArgPattern::Glob { pattern } => json!({"kind": "glob", "pattern": &*pattern.0}),
    };
    match i {
        CommandSpecItem::Cmd(c) => {
            let args = match &c.args {
                ArgShape::Right { pattern } => json!({"kind": "right", "pattern": pat(pattern)}),
                ArgShape::Left1 => json!({"kind": "left1"}),
                ArgShape::InfixGreedy => json!({"kind": "infix-greedy"}),
            };
            json!({"kind": "cmd", "args": args, "alias": c.alias})
        }
        CommandSpecItem::Env(e) => {
            let c = match e.ctx_feature {
                ContextFeature::None => "none",
                ContextFeature::IsMath => "is-math",
                ContextFeature::IsMatrix => "is-matrix",
                ContextFeature::IsCases => "is-cases",
                ContextFeature::IsFigure => "is-figure",
                ContextFeature::IsTable => "is-table",
                ContextFeature::IsItemize => "is-itemize",
                ContextFeature::IsEnumerate => "is-enumerate",
            };
            json!({"kind": "env", "args": pat(&e.args), "ctx_feature": {"kind": c}, "alias": e.alias})
        }
    }
}
pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
pub fn cat() -> &'static Catalogue {
    static C: OnceLock<Catalogue> = OnceLock::new();
    C.get_or_init(catalogue)
}
pub fn catalogue() -> Catalogue {
        let out = std::process::Command::new("typst")
            .args(["query", "--root", "/repo", "/repo/packages/mitex/specs/mod.typ", "<mitex-packages>"])
            .output()
            .expect("typst does not run");
        let v: Value = serde_json::from_slice(&out.stdout).unwrap_or_else(|_| panic!("the specification files do not export packages: {}", String::from_utf8_lossy(&out.stderr)));
        let mut c = Catalogue {
            long: BTreeMap::new(),
            syms: vec![],
            solid: vec![],
            cmds: vec![vec![]; 3],
            texts: vec![],
            left: vec![],
            greedy: vec![],
            infix: vec![],
            envs: Default::default(),
            known: vec![],
        };
        for p in v[0]["value"].as_array().unwrap() {
            for (k, i) in p["spec"]["commands"].as_object().unwrap() {
                c.long.insert(k.clone(), long(i));
            }
        }
        for (k, v) in &c.long {
            let n = leak(k);
            c.known.push(n);
            if special(n) {
                continue;
            }
            let alias = v["alias"].as_str();
            let arity = |a: &Value| match a["kind"].as_str() {
                Some("none") => Some(0),
                Some("fixed-len") => a["len"].as_u64().map(|n| n as usize),
                _ => None,
            };
            if v["kind"] == "env" {
                let k = match v["ctx_feature"]["kind"].as_str() {
                    Some("is-matrix") => 0,
                    Some("is-cases") => 1,
                    Some("is-math") => 2,
                    _ => continue,
                };
                if let Some(a @ 0..=1) = arity(&v["args"]) {
                    c.envs[k][a].push(n);
                }
                continue;
            }
            match v["args"]["kind"].as_str() {
                Some("left1") => c.left.push(n),
                Some("infix-greedy") => c.infix.push(n),
                _ => match (v["args"]["pattern"]["kind"].as_str(), arity(&v["args"]["pattern"])) {
                    (Some("none"), _) => {
                        c.syms.push(n);
                        if alias != Some("") {
                            c.solid.push(n);
                        }
                    }
                    (Some("greedy"), _) => c.greedy.push(n),
                    (_, Some(1)) if alias.is_some_and(|a| a.starts_with('#')) => c.texts.push(n),
                    (_, Some(a @ 1..=2)) => c.cmds[a].push(n),
                    _ => {}
                },
            }
        }
    c
}
// ---------------------------------------------------------- substitution
/// The names to put in.
pub struct Names<'a> {
    pub syms: &'a [&'static str],
    pub solid: &'a [&'static str],
    pub cmds: &'a [Vec<&'static str>],
    pub texts: &'a [&'static str],
    pub left: &'a [&'static str],
    pub greedy: &'a [&'static str],
    pub infix: &'a [&'static str],
    pub envs: &'a [[Vec<&'static str>; 2]; 3],
    /// how often a name is kept, of 8
    pub keep: usize,
    /// fills in what the package cannot evaluate when it is empty
    pub mend: bool,
    pub used: Vec<&'static str>,
}
impl Names<'_> {
    pub fn swap(&mut self, s: &mut Src, n: &mut &'static str, from: &[&'static str]) {
        if from.is_empty() || s.chance(self.keep, 8) {
            return;
        }
        *n = from[s.below(from.len())];
        self.used.push(n);
    }
    pub fn list(&mut self, s: &mut Src, v: &mut [M]) {
        for m in v {
            self.item(s, m, false);
        }
    }
    pub fn arg(&mut self, s: &mut Src, a: &mut Arg) {
        match a {
            Arg::Braced(v) => self.list(s, v),
            Arg::Bare(m) => self.item(s, m, false),
        }
    }
    pub fn texts(&mut self, s: &mut Src, v: &mut [T]) {
        for t in v {
            match t {
                T::Cmd(n, args) => {
                    let from = self.texts.iter().copied().filter(|n| !["textbf", "textit"].contains(n)).collect::<Vec<_>>();
                    self.swap(s, n, &from);
                    for a in args {
                        self.texts(s, a);
                    }
                }
                T::Group(v) | T::Quote(_, v) | T::Color(_, _, _, v) | T::ColorRest(_, _, v) => self.texts(s, v),
                T::Inline(_, m) | T::Display(_, m) => self.list(s, m),
                T::EnvMath(m, _) => self.item(s, m, false),
                T::Table(t) => {
                    for c in t.rows.iter_mut().flat_map(|r| r.1.iter_mut()) {
                        self.texts(s, c);
                    }
                }
                T::Figure(f) => {
                    self.texts(s, &mut f.body);
                    if let Some(c) = &mut f.caption {
                        self.texts(s, c);
                    }
                }
                T::List(_, v) => {
                    for i in v {
                        self.texts(s, i);
                    }
                }
                _ => {}
            }
        }
    }
    pub fn item(&mut self, s: &mut Src, m: &mut M, solid: bool) {
        match m {
            M::Sym(n) => {
                let from = if solid { self.solid } else { self.syms };
                self.swap(s, n, from);
            }
            M::Cmd(n, args) => {
                if let Some(from) = self.cmds.get(args.len()) {
                    self.swap(s, n, from);
                }
                // other numbers of arguments
                if s.chance(1, 8) {
                    let k = s.below(self.cmds.len());
                    if let Some(&x) = self.cmds[k].get(s.below(self.cmds[k].len().max(1))) {
                        *n = x;
                        self.used.push(x);
                        while args.len() < k {
                            args.push(Arg::Braced(vec![M::Word("k".into())]));
                        }
                        args.truncate(k);
                    }
                }
                for a in args {
                    self.arg(s, a);
                }
            }
            M::Sqrt(i, a) => {
                if let Some(i) = i {
                    self.list(s, i);
                    if self.mend && !i.is_empty() && !i.iter().any(|m| matches!(m, M::Word(_))) {
                        // (the package leaves out brackets)
                        i.push(M::Word("3".into()));
                    }
                }
                self.arg(s, a);
            }
            M::TextCmd(n, t) => {
                self.swap(s, n, self.texts);
                self.texts(s, t);
            }
            M::Group(v) | M::Color(_, _, v) => self.list(s, v),
            M::Greedy(n, v) => {
                self.swap(s, n, self.greedy);
                self.list(s, v);
                if self.mend && v.iter().all(blank) {
                    v.push(M::Word("k".into()));
                }
            }
            M::Script(b, primes, marks) => {
                if let Some(b) = b {
                    self.item(s, b, *primes > 0 || marks.first().is_none_or(|m| m.0 == '\''));
                }
                for (_, a) in marks {
                    self.arg(s, a);
                }
            }
            M::Limits(b, n, marks) => {
                self.item(s, b, false);
                self.swap(s, n, self.left);
                for (_, a) in marks {
                    self.arg(s, a);
                }
            }
            M::Lr(l, r, v) => {
                for d in [l, r] {
                    if d.1.is_empty() || s.chance(1, 3) {
                        let mut n = d.0;
                        let old = n;
                        self.swap(s, &mut n, self.syms);
                        if n != old {
                            *d = (n, "");
                        }
                    }
                }
                self.list(s, v);
            }
            M::Infix(n, l, r) => {
                self.swap(s, n, self.infix);
                self.list(s, l);
                self.list(s, r);
            }
            M::ColorCmd(_, _, _, a) => self.arg(s, a),
            M::Env(n, arg, rows, _) => {
                let k = s.below(3);
                let k = if s.chance(1, 2) || self.envs[k][0].is_empty() { match sep_of(n) { Sep::Matrix => 0, Sep::Cases => 1, Sep::Plain => 2 } } else { k };
                let with = arg.is_some() as usize;
                let from = &self.envs[k][with];
                if !from.is_empty() {
                    self.swap(s, n, from);
                } else if with == 1 && !self.envs[k][0].is_empty() {
                    *arg = None;
                    *n = self.envs[k][0][s.below(self.envs[k][0].len())];
                    self.used.push(n);
                }
                if let Some(a) = arg {
                    self.list(s, a);
                }
                for c in rows.iter_mut().flatten() {
                    self.list(s, c);
                }
                if self.mend && rows.len() == 1 && rows[0].len() == 1 && rows[0][0].iter().all(blank) {
                    rows[0][0].push(M::Word("k".into()));
                }
            }
            M::Substack(rows) => {
                for r in rows {
                    self.list(s, r);
                }
            }
            M::Word(_) | M::Punct(..) | M::Break => {}
        }
    }
}
pub fn full(keep: usize) -> Names<'static> {
    let c = cat();
    Names { syms: &c.syms, solid: &c.solid, cmds: &c.cmds, texts: &c.texts, left: &c.left, greedy: &c.greedy, infix: &c.infix, envs: &c.envs, keep, mend: false, used: vec![] }
}
pub fn tex_of(v: &[M]) -> String {
    let mut x = Tex::plain();
    x.list(v);
    x.out
}
pub const CFG: Cfg = Cfg { sym: 8, cmd: 7, text: 2, limits: 2, lr: 3, infix: 2, greedy: 2, env: 2, color: 0, word: 5, ..MATH };


// ------------------------------------------------------ what can be evaluated
/// Names whose definition in the package does not evaluate in this version of Typst (known findings).
pub const BROKEN: &[&str] = &["Vmatrix", "argmax", "argmin", "dashleftarrow", "dashrightarrow"];
/// Their arguments are lengths or names of labels.
pub const OTHERS: &[&str] = &["hspace", "vspace", "raisebox", "cite", "ref", "eqref", "textwidth", "hspace*", "vspace*", "array", "subarray", "mathscr"];
/// The names that evaluate with any formulas as arguments.
pub fn usable() -> &'static Catalogue {
    static C: std::sync::OnceLock<Catalogue> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut c = catalogue();
        // (unpaired inside of a call they are no valid code: known findings of C13)
        const BARE: &[&str] = &["lceil", "rceil", "lfloor", "rfloor", "lgroup", "rgroup", "lBrace", "rBrace", "llcorner", "lrcorner", "ulcorner", "urcorner", "rmoustache", "textbraceleft", "textbraceright", "approxcolon", "approxcoloncolon"];
        let out = |v: &mut Vec<&'static str>| v.retain(|n| !BROKEN.contains(n) && !OTHERS.contains(n) && !BARE.contains(n));
        for v in [&mut c.syms, &mut c.solid, &mut c.texts, &mut c.left, &mut c.greedy, &mut c.infix] {
            out(v);
        }
        c.cmds.iter_mut().for_each(out);
        c.envs.iter_mut().flatten().for_each(out);
        c
    })
}
