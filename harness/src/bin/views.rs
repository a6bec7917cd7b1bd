//! The typed views of the syntax tree: formulas, commands, environments and delimiters.
use mitex_parser::syntax::{BeginItem, CmdItem, EndItem, EnvItem, FormulaItem, LRClause, LRItem, SyntaxKind as K, SyntaxNode};
use mitex_spec_gen::DEFAULT_SPEC;
use rowan::ast::AstNode;
use vk::*;

/// What a view is expected to show, in the order of the text.
#[derive(Debug, PartialEq, Clone)]
enum V {
    Formula { text: String, inline: bool, display: bool, valid: bool },
    Cmd { name: String, args: Vec<String> },
    Env { name: String, args: Vec<String>, end: Option<String> },
    Lr { left: String, right: String },
}

struct Gen<'a> {
    s: &'a mut Src,
    out: String,
    views: Vec<V>,
    left: usize,
}
const CMDS: &[(&str, usize)] =
    &[("alpha", 0), ("hat", 1), ("frac", 2), ("binom", 2), ("unknowncmd", 0), ("sqrt", 1), ("mathbf", 1), ("bmod", 0), ("operatorname*", 1), ("%", 0), ("text", 1)];
const ENVS: &[(&str, usize)] = &[("matrix", 0), ("array", 1), ("aligned", 0), ("align*", 0), ("tabular", 1), ("unknownenv", 0), ("cases", 0)];
const SYMS: &[&str] = &["(", ")", "[", "]", ".", "|", "/", "\\{", "\\}", "\\langle", "\\|", "<", "\\rangle", "\\lvert"];

impl Gen<'_> {
    fn blank(&mut self) {
        if self.s.chance(1, 3) {
            let b = self.s.pick(&[" ", "\n", "  ", "%c$\n", "\t"]);
            self.out.push_str(b);
        }
    }
    fn items(&mut self, depth: usize, formula: bool, n: usize) {
        for _ in 0..n {
            self.item(depth, formula);
        }
    }
    /// one argument; its text is what was added, without what is before it
    fn argument(&mut self, depth: usize, formula: bool) -> String {
        self.blank();
        let from = self.out.len();
        match self.s.weighted(&[4, 1]) {
            1 if !self.out.ends_with(|c: char| c.is_ascii_alphabetic() || c == '*' || c == '@') => {
                let w = self.s.pick(&["x", "7", "é"]);
                self.out.push_str(w);
            }
            _ => {
                self.out.push('{');
                let n = self.s.below(3);
                self.items(depth + 1, formula, n);
                self.out.push('}');
            }
        }
        self.out[from..].to_string()
    }
    fn item(&mut self, depth: usize, formula: bool) {
        let deep = depth < 5 && self.left > 0;
        self.left = self.left.saturating_sub(1);
        match self.s.weighted(&[3, 2, 2, 6, 6, 3, 3, 1]) {
            1 => self.blank(),
            2 if deep => {
                self.out.push('{');
                let n = self.s.below(4);
                self.items(depth + 1, false, n);
                if self.s.chance(1, 6) {
                    self.formula(depth + 1, true);
                }
                self.out.push('}');
            }
            3 if deep => {
                let (name, n) = self.s.of(CMDS);
                let at = self.views.len();
                self.out.push('\\');
                self.out.push_str(name);
                self.views.push(V::Cmd { name: format!("\\{name}"), args: vec![] });
                let mut list = vec![];
                if name == "sqrt" && self.s.chance(1, 2) {
                    self.blank();
                    let w = self.s.pick(&["[3]", "[{]}]", "[]", "[a b]"]);
                    self.out.push_str(w);
                    list.push(w.to_string());
                }
                for _ in 0..n {
                    // (an argument of a formula's command does not close the formula)
                    list.push(self.argument(depth, false));
                }
                if let V::Cmd { args, .. } = &mut self.views[at] {
                    *args = list;
                }
                if n == 0 {
                    self.out.push(' ');
                }
            }
            4 if deep && !formula => self.formula(depth, false),
            5 if deep => {
                let (name, n) = self.s.of(ENVS);
                let at = self.views.len();
                self.views.push(V::Env { name: name.into(), args: vec![], end: Some(name.into()) });
                self.out.push_str("\\begin");
                self.blank();
                self.out.push_str(&format!("{{{name}}}"));
                let mut list = vec![];
                for _ in 0..n {
                    self.blank();
                    let w = self.s.pick(&["{c}", "{l|r}", "{}"]);
                    self.out.push_str(w);
                    list.push(w.to_string());
                }
                let k = self.s.below(4);
                self.items(depth + 1, formula, k);
                if let V::Env { args, .. } = &mut self.views[at] {
                    *args = list;
                }
                self.out.push_str(&format!("\\end{{{name}}}"));
            }
            6 if deep => {
                let (l, r) = (self.s.pick(SYMS).to_string(), self.s.pick(SYMS).to_string());
                self.views.push(V::Lr { left: l.clone(), right: r.clone() });
                self.out.push_str("\\left");
                self.blank();
                self.out.push_str(&l);
                self.out.push(' ');
                let n = self.s.below(3);
                self.items(depth + 1, formula, n);
                self.out.push_str("\\right");
                self.blank();
                self.out.push_str(&r);
                self.out.push(' ');
            }
            _ => {
                let w = self.s.pick(&["x", "ab", "1", "é", "+", "-"]);
                self.out.push_str(w);
                self.out.push(' ');
            }
        }
    }
    /// a formula, open ones being the last of their group
    fn formula(&mut self, depth: usize, open: bool) {
        let (o, c) = self.s.of(&[("$", "$"), ("$$", "$$"), ("\\(", "\\)"), ("\\[", "\\]")]);
        self.out.push(' ');
        let (from, at) = (self.out.len(), self.views.len());
        self.out.push_str(o);
        self.views.push(V::Formula {
            text: String::new(),
            inline: matches!(o, "$" | "\\("),
            display: matches!(o, "$$" | "\\["),
            valid: !open,
        });
        self.out.push_str(" y ");
        let n = self.s.below(4);
        self.items(depth + 1, true, n);
        if open {
            if self.s.chance(1, 2) {
                self.out.push('{');
                self.formula(depth + 1, false);
                // (at the end of the text, the last of an open formula may be the end of another)
                self.out.truncate(self.out.trim_end().len());
                if depth > 0 || self.s.chance(1, 2) {
                    self.out.push('}');
                }
            }
        } else if self.s.chance(1, 10) {
            // the end of another formula
            self.out.push_str(match o {
                "$" => "$$",
                "$$" => "$",
                "\\(" => "\\]",
                _ => "\\)",
            });
            if let V::Formula { valid, .. } = &mut self.views[at] {
                *valid = false;
            }
        } else {
            self.out.push_str(c);
        }
        let shown = self.out[from..].to_string();
        if let V::Formula { text, .. } = &mut self.views[at] {
            *text = shown;
        }
        if !open {
            self.out.push(' ');
        }
    }
}

fn text(n: &SyntaxNode) -> String {
    n.text().to_string()
}
/// Blanks and comments do not count (those before an argument are not in the tree).
/// The marks of an environment are its name in the tree.
fn plain(t: &str) -> String {
    let mut t: String = t.replace("%c$\n", "").split_whitespace().collect();
    for (e, _) in ENVS {
        t = t.replace(&format!("\\begin{{{e}}}"), e).replace(&format!("\\end{{{e}}}"), e);
    }
    t
}
fn normal(v: &V) -> V {
    let all = |a: &Vec<String>| a.iter().map(|x| plain(x)).collect();
    match v.clone() {
        V::Formula { text, inline, display, valid } => V::Formula { text: plain(&text), inline, display, valid },
        V::Cmd { name, args } => V::Cmd { name, args: all(&args) },
        V::Env { name, args, end } => V::Env { name, args: all(&args), end },
        v => v,
    }
}
fn sym(t: Option<mitex_parser::syntax::SyntaxToken>) -> String {
    t.map(|t| t.text().to_string()).unwrap_or("-none-".into())
}
/// A view exists for the nodes of its own kind only, and it is a view of that node.
fn casts(n: &SyntaxNode) -> Res {
    fn one<T: AstNode<Language = mitex_parser::syntax::TexLang>>(n: &SyntaxNode, kind: K, what: &str) -> Res {
        let own = n.kind() == kind;
        let v = T::cast(n.clone());
        if T::can_cast(n.kind()) != own || v.is_some() != own || v.is_some_and(|v| v.syntax() != n) {
            return Err(format!("{what} and a node {:?} {:?}", n.kind(), text(n)));
        }
        Ok(())
    }
    one::<FormulaItem>(n, K::ItemFormula, "FormulaItem")?;
    one::<CmdItem>(n, K::ItemCmd, "CmdItem")?;
    one::<EnvItem>(n, K::ItemEnv, "EnvItem")?;
    one::<LRItem>(n, K::ItemLR, "LRItem")?;
    one::<LRClause>(n, K::ClauseLR, "LRClause")?;
    one::<BeginItem>(n, K::ItemBegin, "BeginItem")?;
    one::<EndItem>(n, K::ItemEnd, "EndItem")
}
fn seen(tree: &SyntaxNode) -> Result<Vec<V>, String> {
    let mut out = vec![];
    for n in tree.descendants() {
        casts(&n)?;
        if let Some(f) = FormulaItem::cast(n.clone()) {
            out.push(V::Formula { text: text(&n), inline: f.is_inline(), display: f.is_display(), valid: f.is_valid() });
        }
        if let Some(c) = CmdItem::cast(n.clone()) {
            out.push(V::Cmd { name: sym(c.name_tok()), args: c.arguments().map(|a| text(&a)).collect() });
        }
        if let Some(e) = EnvItem::cast(n.clone()) {
            let begin = e.begin().ok_or("an environment without its start")?;
            if sym(begin.name()) != sym(e.name_tok()) || begin.arguments().count() != e.arguments().count() {
                return Err("the start of an environment has another name or other arguments".into());
            }
            out.push(V::Env { name: sym(e.name_tok()), args: e.arguments().map(|a| text(&a)).collect(), end: e.end().map(|e| sym(e.name())) });
        }
        if let Some(l) = LRItem::cast(n.clone()) {
            let sides = (l.left().map(|x| x.is_left()), l.right().map(|x| x.is_left()));
            if sides != (Some(true), Some(false)) {
                return Err(format!("the sides of {:?} are {sides:?}", text(&n)));
            }
            out.push(V::Lr { left: sym(l.left_sym()), right: sym(l.right_sym()) });
        }
    }
    Ok(out)
}

fn views(s: &mut Src, o: &mut Obs) -> Res {
    let left = s.range(2, 30);
    let mut g = Gen { s, out: String::new(), views: vec![], left };
    let n = g.s.range(1, 5);
    g.items(0, false, n);
    if g.s.chance(1, 8) {
        g.formula(0, true);
    }
    let (tex, want) = (g.out, g.views);
    o.show(&tex);
    o.nontrivial = want.len() >= 2;
    o.label_if(want.iter().any(|v| matches!(v, V::Formula { valid: false, .. })), "formula without its end");
    o.label_if(want.iter().any(|v| matches!(v, V::Lr { .. })), "delimiters");
    o.label_if(want.iter().any(|v| matches!(v, V::Env { .. })), "environment");
    o.label_if(want.iter().any(|v| matches!(v, V::Cmd { args, .. } if !args.is_empty())), "arguments");
    if dry() {
        return Ok(());
    }
    let tree = guarded(|| mitex_parser::parse(&tex, DEFAULT_SPEC.clone()))?;
    let got = guarded(|| seen(&tree))??;
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        same(&format!("view {i}"), &normal(g), &normal(w))?;
    }
    same("number of views", &got.len(), &want.len())
}
/// Any text: every node has the views of its kind, and looking at them never fails.
fn any(s: &mut Src, o: &mut Obs) -> Res {
    let tex = gen::soup(s, true);
    o.show(&tex);
    if dry() {
        return Ok(());
    }
    let tree = guarded(|| mitex_parser::parse_without_macro(&tex, DEFAULT_SPEC.clone()))?;
    let mut n = 0;
    for d in tree.descendants() {
        casts(&d)?;
        let e = d.clone();
        guarded(|| {
            if let Some(f) = FormulaItem::cast(e.clone()) {
                n += 1;
                let all = text(&e);
                let (i, d) = (f.is_inline(), f.is_display());
                let opener = e.first_token().map(|t| t.text().to_string()).unwrap_or_default();
                let twice = opener == "$$" || opener == "\\[";
                if i == d || d != twice {
                    return Err(format!("the formula {all:?} is inline: {i}, display: {d}"));
                }
                let _ = f.is_valid();
            }
            if let Some(c) = CmdItem::cast(e.clone()) {
                n += 1;
                c.name_tok().ok_or("a command without a name")?;
            }
            if let Some(v) = EnvItem::cast(e.clone()) {
                n += 1;
                v.name_tok();
                v.arguments().count();
                let ends = e.children().filter(|x| x.kind() == K::ItemEnd).count();
                if v.end().is_some() != (ends > 0) {
                    return Err("the end of an environment is not seen".into());
                }
            }
            if let Some(l) = LRItem::cast(e.clone()) {
                n += 1;
                (l.left_sym(), l.right_sym());
                if l.left().map(|x| x.is_left()) != Some(true) {
                    return Err("a left delimiter is not one".into());
                }
            }
            Ok(())
        })??;
    }
    o.nontrivial = n >= 2;
    Ok(())
}

fn main() {
    main_for(vec![Property {
        id: "C28",
        rule: "at least two formulas, commands, environments or pairs of delimiters",
        assumptions: &["a formula that consists of one $ only counts as valid (a test of the repository says so)", "every \\left has its \\right"],
        subs: vec![sub("views", 1_000_000, 15_000_000, views), sub("any", 500_000, 8_000_000, any)],
    }]);
}
