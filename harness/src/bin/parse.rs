//! The syntax tree: its leaves, its nesting, and the arguments of commands.
use mitex_lexer::{BraceKind as B, CommandName as C, IfCommandName as I, Lexer, MacroEngine, Token as T};
use mitex_parser::syntax::{SyntaxElement, SyntaxKind as K, SyntaxNode};
use mitex_parser::CommandSpec;
use mitex_spec::{ArgPattern, ArgShape, CmdShape, CommandSpecItem, ContextFeature, EnvShape};
use mitex_spec_gen::DEFAULT_SPEC;
use vk::globref::{self, G};
use vk::specs::*;
use vk::*;

// ------------------------------------------------------------------ C02
/// The tokens of the text, consumed by walking over the tree.
struct Walk<'a> {
    toks: &'a [(T, &'a str)],
    at: usize,
    off: usize,
    skip: bool,
    groups: Vec<(K, usize, usize)>,
    /// the groups that are open here, outermost first
    open: Vec<K>,
    /// in a delimiter or the end of a group, which may be a closing token
    own: bool,
}
fn is_trivia(t: T) -> bool {
    matches!(t, T::LineBreak | T::Whitespace | T::LineComment)
}
/// kind of what is first in an element: a token or a conditional block
fn first(e: &SyntaxElement) -> Option<K> {
    match e {
        SyntaxElement::Token(t) => Some(t.kind()),
        SyntaxElement::Node(n) if matches!(n.kind(), K::ItemBlockComment | K::ItemTypstCode) => Some(n.kind()),
        SyntaxElement::Node(n) => n.children_with_tokens().find_map(|c| first(&c)),
    }
}
impl Walk<'_> {
    /// the blanks and block comments before an argument are not in the tree
    fn skip_blanks(&mut self) {
        if self.skip && self.off == 0 {
            let mut nested = 0;
            while let Some((t, _)) = self.toks.get(self.at) {
                match t {
                    T::CommandName(C::If(I::IfFalse)) if nested == 0 => nested = 1,
                    T::CommandName(C::If(_)) if nested > 0 => nested += 1,
                    T::CommandName(C::EndIf) if nested > 0 => nested -= 1,
                    t if nested == 0 && !is_trivia(*t) => break,
                    _ => {}
                }
                self.at += 1;
            }
        }
        self.skip = false;
    }
    fn leaf(&mut self, kind: K, text: &str) -> Res {
        self.skip_blanks();
        let Some((t, full)) = self.toks.get(self.at) else {
            return Err(format!("the tree has a leaf {kind:?} {text:?} after the last token"));
        };
        if !self.own {
            closes(&self.open, *t)?;
        }
        let rest = &full[self.off..];
        let ok = K::from(*t) == kind || (kind == K::TokenCommandSym && *t == T::CommandName(C::Generic));
        if !ok || !(rest == text || *t == T::Word && rest.starts_with(text) && !text.is_empty()) {
            return Err(format!("leaf {kind:?} {text:?} in place of token {} {t:?} {rest:?}", self.at));
        }
        self.off += text.len();
        if self.off == full.len() {
            self.at += 1;
            self.off = 0;
        }
        Ok(())
    }
    fn mark(&mut self, ok: impl Fn(T) -> bool, what: &str) -> Res {
        match self.toks.get(self.at) {
            Some((t, _)) if ok(*t) && self.off == 0 => {
                self.at += 1;
                Ok(())
            }
            t => Err(format!("{what} at token {} {t:?}", self.at)),
        }
    }
    fn node(&mut self, n: &SyntaxNode, depth: usize) -> Res {
        let kind = n.kind();
        if depth > 3000 {
            return Err("too deep".into());
        }
        if kind != K::ClauseArgument {
            self.skip_blanks();
        }
        let skipped = matches!(kind, K::ItemBlockComment | K::ItemTypstCode);
        if skipped {
            let want = if kind == K::ItemBlockComment { I::IfFalse } else { I::IfTypst };
            self.mark(|t| t == T::CommandName(C::If(want)), "a conditional block starts")?;
        }
        let start = self.at;
        let kids: Vec<SyntaxElement> = n.children_with_tokens().collect();
        self.shape(kind, &kids)?;
        let takes = matches!(kind, K::ItemCmd | K::ItemBegin);
        let opens = matches!(kind, K::ItemCurly | K::ItemBracket | K::ItemParen | K::ItemFormula | K::ItemEnv | K::ItemLR);
        let (own, depth_open) = (self.own, self.open.len());
        for (i, c) in kids.iter().enumerate() {
            if takes && i > 0 && c.kind() == K::ClauseArgument {
                self.skip = first(c).is_some_and(|k| !matches!(k, K::TokenLineBreak | K::TokenWhiteSpace | K::TokenComment | K::ItemBlockComment));
            }
            let end = opens && i > 0 && i + 1 == kids.len() && Some(c.kind()) == closer_of(kind, kids[0].kind());
            self.own = own || skipped || end || kind == K::ClauseLR && i > 0 && c.kind() != K::TokenRBrace;
            match c {
                SyntaxElement::Node(c) => self.node(c, depth + 1)?,
                SyntaxElement::Token(t) => self.leaf(t.kind(), t.text())?,
            }
            self.skip = false;
            if opens && i == 0 {
                self.open.push(if kind == K::ItemFormula && kids[0].kind() != K::TokenDollar { K::TokenBeginMath } else { kind });
            }
        }
        self.own = own;
        self.open.truncate(depth_open);
        if skipped && self.at < self.toks.len() {
            self.mark(|t| t == T::CommandName(C::EndIf), "a conditional block ends")?;
        }
        if matches!(kind, K::ItemCurly | K::ItemFormula | K::ItemEnv | K::ItemLR) {
            self.groups.push((kind, start, self.at));
        }
        Ok(())
    }
    /// the opening element comes first, the closing one only last
    fn shape(&self, kind: K, kids: &[SyntaxElement]) -> Res {
        let k: Vec<K> = kids.iter().map(|c| c.kind()).collect();
        let opener = match kind {
            K::ItemCurly => Some(K::TokenLBrace),
            K::ItemBracket => Some(K::TokenLBracket),
            K::ItemParen => Some(K::TokenLParen),
            K::ItemFormula if k.first() == Some(&K::TokenDollar) => Some(K::TokenDollar),
            K::ItemFormula => Some(K::TokenBeginMath),
            K::ItemEnv => Some(K::ItemBegin),
            K::ItemLR => Some(K::ClauseLR),
            _ => None,
        };
        let Some(opener) = opener else { return Ok(()) };
        same("what a group starts with", &k.first(), &Some(&opener))?;
        let closer = closer_of(kind, opener).unwrap();
        match k.iter().skip(1).position(|x| *x == closer) {
            Some(i) if i + 2 != k.len() => Err(format!("{kind:?} goes on after its end: {k:?}")),
            _ => Ok(()),
        }
    }
}
/// what ends a group that starts with `opener`
fn closer_of(kind: K, opener: K) -> Option<K> {
    Some(match kind {
        K::ItemCurly => K::TokenRBrace,
        K::ItemBracket => K::TokenRBracket,
        K::ItemParen => K::TokenRParen,
        K::ItemFormula if opener == K::TokenDollar => K::TokenDollar,
        K::ItemFormula => K::TokenEndMath,
        K::ItemEnv => K::ItemEnd,
        K::ItemLR => K::ClauseLR,
        _ => return None,
    })
}
/// A closing token that ends nothing must not be in a group it would end: a brace
/// ends whatever is open, `\end` what is open in the innermost braces, `\right` what
/// is open in the innermost braces or environment, the others just their own group.
fn closes(open: &[K], t: T) -> Res {
    let within = |stop: &[K]| open.iter().rev().take_while(|k| !stop.contains(k)).next().copied();
    let bad = match t {
        T::Right(B::Curly) => within(&[]),
        T::CommandName(C::EndEnvironment) => within(&[K::ItemCurly]),
        T::CommandName(C::Right) => within(&[K::ItemCurly, K::ItemEnv]),
        T::Right(B::Bracket) => open.last().copied().filter(|k| *k == K::ItemBracket),
        T::Right(B::Paren) => open.last().copied().filter(|k| *k == K::ItemParen),
        T::CommandName(C::EndMath) => open.last().copied().filter(|k| *k == K::TokenBeginMath),
        T::Dollar => open.last().copied().filter(|k| *k == K::ItemFormula),
        _ => None,
    };
    match bad {
        Some(k) => Err(format!("{t:?} does not end the {k:?} it is in")),
        None => Ok(()),
    }
}
fn check_leaves(tree: &SyntaxNode, toks: &[(T, &str)]) -> Result<Vec<(K, usize, usize)>, String> {
    let mut w = Walk { toks, at: 0, off: 0, skip: false, groups: vec![], open: vec![], own: false };
    same("root", &tree.kind(), &K::ScopeRoot)?;
    w.node(tree, 0).map_err(|e| format!("{e}\n{}", cut(&format!("{tree:#?}"), 3000)))?;
    if w.at != toks.len() || w.off != 0 {
        return Err(format!("the tree lacks token {} {:?} and what follows\n{}", w.at, toks[w.at], cut(&format!("{tree:#?}"), 3000)));
    }
    Ok(w.groups)
}
fn leaves(s: &mut Src, o: &mut Obs) -> Res {
    let spec = if s.chance(1, 2) { any_spec(s) } else { DEFAULT_SPEC.clone() };
    let mut text = gen::soup(s, true);
    if s.chance(1, 3) {
        // `\begin{a}{\iffalse` and the like
        for _ in 0..s.range(1, 4) {
            for _ in 0..s.range(0, 3) {
                gen::piece(s, &mut text, true);
            }
            let w = s.pick(&["\\iffalse", "\\fi", "\\iftypst ", "\\left", "\\right", "{", "}", "$", "\\begin{f}", "\\end{f}", "\\frac", "\\color", "["]);
            text.push_str(w);
        }
    }
    o.show(&text);
    let want = reflex::tokens(&text, &|n| spec.get(n).is_some());
    o.nontrivial = want.len() >= 4 && text.contains(['\\', '{', '$']);
    if dry() {
        return Ok(());
    }
    let tree = guarded(|| mitex_parser::parse_without_macro(&text, spec.clone()))?;
    check_leaves(&tree, &want)?;
    o.label_if(text.contains("\\iffalse") || text.contains("\\iftypst"), "conditional");
    o.label_if(text.contains('{') && text.contains('}'), "braces");
    Ok(())
}
fn leaves_macro(s: &mut Src, o: &mut Obs) -> Res {
    let spec = DEFAULT_SPEC.clone();
    let mut text = String::new();
    for _ in 0..s.range(1, 4) {
        let w = s.pick(&[
            "\\newcommand{\\ma}{x\\frac}", "\\newcommand\\mb[1]{#1y}", "\\newcommand{\\ma}[2][d]{#2 {#1}}", "\\newenvironment{f}{[}{]}",
            "\\newenvironment{f}[1]{\\begin{matrix}#1&}{\\end{matrix}}", "\\renewcommand{\\alpha}{ab}", "\\providecommand{\\mb}{ab cd}",
            "\\newcommand{\\mb}{\\iffalse x}",
        ]);
        text.push_str(w);
        for _ in 0..s.range(1, 8) {
            let p = s.pick(&["\\ma", "\\mb", "\\mb{x}", "\\ma[q]{z}", "\\begin{f}", "\\end{f}", "\\begin{f}{1}", "\\iftrue", "\\iffalse", "\\fi", "\\else", "\\iftypst"]);
            if s.chance(1, 3) {
                text.push_str(p);
            } else {
                gen::piece(s, &mut text, false);
            }
        }
    }
    o.show(&text);
    o.nontrivial = text.contains("\\ma") || text.contains("\\mb") || text.contains("{f}");
    if dry() {
        return Ok(());
    }
    let toks: Vec<(T, &str)> = guarded(|| {
        let mut lx: Lexer<MacroEngine> = Lexer::new_with_bumper(&text, spec.clone(), MacroEngine::new(spec.clone()));
        let mut v = vec![];
        while let Some(t) = lx.eat() {
            v.push(t);
        }
        v
    })?;
    let tree = guarded(|| mitex_parser::parse(&text, spec.clone()))?;
    check_leaves(&tree, &toks)?;
    Ok(())
}
/// Balanced text together with its groups as (kind, first token, end token).
struct Bal<'a> {
    s: &'a mut Src,
    out: String,
    n: usize,
    groups: Vec<(K, usize, usize)>,
    left: usize,
    /// how many groups may have many items, and the deepest level
    big: usize,
    deepest: usize,
}
impl Bal<'_> {
    fn put(&mut self, t: &str) {
        self.out.push_str(t);
        self.n += 1;
    }
    /// a word must not run into the next one
    fn word(&mut self) {
        let w = self.s.pick(gen::WORDS);
        if self.out.ends_with(|c: char| !c.is_whitespace() && !"{}[]()$,&".contains(c)) {
            self.put(" ");
        }
        self.put(w);
    }
    fn items(&mut self, depth: usize, formula: bool) {
        let n = if self.big > 0 && self.s.chance(1, 5) {
            self.big -= 1;
            let top = self.s.of(&[12, 40, 300]);
            self.s.range(5, top)
        } else if self.deepest > 7 {
            self.s.range(1, 4)
        } else {
            self.s.below(5)
        };
        for _ in 0..n {
            self.item(depth, formula);
        }
    }
    fn blank(&mut self) {
        if self.out.ends_with(|c: char| c.is_whitespace()) {
            return;
        }
        let w = self.s.pick(&[" ", "\n", "  "]);
        self.put(w);
    }
    fn group(&mut self, k: K, open: &[&str], close: &str, depth: usize, formula: bool) {
        let start = self.n;
        for t in open {
            self.put(t);
        }
        self.items(depth + 1, formula);
        if k == K::ItemFormula && self.out.ends_with('$') {
            self.put(" ");
        }
        self.put(close);
        if close == "\\right" {
            let w = self.s.pick(&[")", ".", "]", "|"]);
            self.put(w);
        }
        self.groups.push((k, start, self.n));
    }
    fn item(&mut self, depth: usize, formula: bool) {
        if self.left == 0 {
            return self.word();
        }
        self.left -= 1;
        let deep = depth < self.deepest;
        match self.s.below(14) {
            0 => self.word(),
            1 => self.blank(),
            2 => {
                let w = self.s.pick(&["\\alpha", "\\frac", "\\sqrt", "\\hat", "\\over", "\\displaystyle", "\\limits", "\\\\", "&", "\\text", "\\unknown", "\\color", "\\textcolor", ",", "\\section"]);
                self.put(w);
                if w.starts_with('\\') && w != "\\\\" {
                    self.put(" ");
                }
            }
            3 => {
                let w = self.s.pick(&["_", "^"]);
                self.put(w);
                let k = self.groups.len();
                let _ = k;
                if deep { self.group(K::ItemCurly, &["{"], "}", depth, formula) } else { self.put("x") }
            }
            4..=7 if deep => self.group(K::ItemCurly, &["{"], "}", depth, formula),
            8 if deep => {
                let e = self.s.pick(&["matrix", "array", "aligned", "unknownenv", "itemize", "f*"]);
                let (a, b) = (format!("\\begin{{{e}}}"), format!("\\end{{{e}}}"));
                // arguments first: what is not one is not taken
                self.put_env(&a, &b, depth, formula);
            }
            9 if deep => {
                let d = self.s.pick(&["(", ".", "[", "|", "\\langle"]);
                self.group(K::ItemLR, &["\\left", d], "\\right", depth, formula);
            }
            10 if deep && !formula => {
                let w = self.s.pick(&["$", "$$"]);
                if self.out.ends_with('$') {
                    self.put(" ");
                }
                self.group(K::ItemFormula, &[w, " "], w, depth, true);
            }
            11 if deep => {
                let (a, b) = if self.s.chance(1, 2) { ("\\(", "\\)") } else { ("\\[", "\\]") };
                self.group(K::ItemFormula, &[a], b, depth, formula);
            }
            12 if deep => {
                self.put("[");
                self.items(depth + 1, formula);
                self.put("]");
            }
            13 if deep => {
                self.put("(");
                self.items(depth + 1, formula);
                self.put(")");
            }
            _ => self.word(),
        }
    }
    fn put_env(&mut self, a: &str, b: &str, depth: usize, formula: bool) {
        let start = self.n;
        self.put(a);
        if a.contains("array") {
            self.put("{");
            self.put("c");
            self.put("}");
            self.groups.push((K::ItemCurly, self.n - 3, self.n));
        }
        self.items(depth + 1, formula);
        self.put(b);
        self.groups.push((K::ItemEnv, start, self.n));
    }
}
fn nesting(s: &mut Src, o: &mut Obs, (left, big, deepest): (usize, usize, usize)) -> Res {
    let mut b = Bal { s, out: String::new(), n: 0, groups: vec![], left, big, deepest };
    for _ in 0..b.s.range(1, 6) {
        b.item(0, false);
    }
    let (text, mut want) = (b.out, b.groups);
    o.show(&text);
    let toks = reflex::tokens(&text, &|n| DEFAULT_SPEC.get(n).is_some());
    o.nontrivial = want.len() >= 3;
    o.label_if(want.len() >= 10, "ten groups");
    // a discarded case would be a generator defect
    if toks.len() != b.n {
        return Err(format!("harness: {} tokens generated, {} lexed: {toks:?}", b.n, toks.len()));
    }
    if dry() {
        return Ok(());
    }
    for macros in [false, true] {
        let tree = guarded(|| if macros { mitex_parser::parse(&text, DEFAULT_SPEC.clone()) } else { mitex_parser::parse_without_macro(&text, DEFAULT_SPEC.clone()) })?;
        let mut got = check_leaves(&tree, &toks)?;
        got.sort();
        want.sort();
        if got != want {
            let show = |v: &[(K, usize, usize)], w: &[(K, usize, usize)]| {
                v.iter().filter(|g| !w.contains(g)).map(|g| format!("{:?} {}", g.0, toks[g.1..g.2].iter().map(|t| t.1).collect::<String>())).collect::<Vec<_>>()
            };
            return Err(format!("groups of the text without node: {:?}\nnodes that are no group: {:?}\n{}", show(&want, &got), show(&got, &want), cut(&format!("{tree:#?}"), 3000)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03
#[derive(Clone, Debug)]
enum Pat {
    None,
    Terms(usize),
    Glob(Vec<G>),
    Greedy,
    Left1,
    Infix,
}
#[derive(Clone, Copy, PartialEq)]
enum Scope {
    Root,
    Dollar,
    CmdMath,
    Env,
    Lr,
    Curly,
    Bracket,
    Paren,
}
#[derive(Clone, Debug)]
enum N {
    Leaf(String),
    /// whether it is closed comes last
    Group(char, Vec<N>, bool),
    Cmd(String, Vec<Vec<N>>),
    Attach(Vec<N>, String, Vec<N>),
    Env(String, Vec<Vec<N>>, Vec<N>, bool),
    Lr(String, Vec<N>, String),
}
fn end(closed: bool) -> String {
    if closed { ">" } else { "unclosed" }.into()
}
fn print(v: &[N], o: &mut Vec<String>) {
    for n in v {
        match n {
            N::Leaf(t) => o.push(t.clone()),
            N::Group(c, v, closed) => {
                o.push(format!("<{c}"));
                print(v, o);
                o.push(end(*closed));
            }
            N::Cmd(n, a) => {
                o.push(format!("<{n}"));
                for a in a {
                    o.push("(".into());
                    print(a, o);
                    o.push(")".into());
                }
                o.push(">".into());
            }
            N::Attach(b, m, x) => {
                print(b, o);
                o.push(format!("<{m}"));
                print(x, o);
                o.push(">".into());
            }
            N::Env(n, a, b, closed) => {
                o.push(format!("<begin {n}"));
                for a in a {
                    o.push("(".into());
                    print(a, o);
                    o.push(")".into());
                }
                print(b, o);
                o.push(end(*closed));
            }
            N::Lr(l, b, r) => {
                o.push(format!("<left {l}"));
                print(b, o);
                o.push(format!("{r}>"));
            }
        }
    }
}
fn tree_print(n: &SyntaxNode, o: &mut Vec<String>) {
    let kids = |n: &SyntaxNode, o: &mut Vec<String>| {
        for c in n.children_with_tokens() {
            match c {
                SyntaxElement::Node(c) => tree_print(&c, o),
                SyntaxElement::Token(t) => match t.kind() {
                    K::TokenLineBreak | K::TokenWhiteSpace | K::TokenComment => {}
                    _ => o.push(t.text().to_string()),
                },
            }
        }
    };
    let args = |n: &SyntaxNode, o: &mut Vec<String>| {
        for c in n.children().filter(|c| c.kind() == K::ClauseArgument) {
            o.push("(".into());
            kids(&c, o);
            o.push(")".into());
        }
    };
    match n.kind() {
        K::ItemCurly | K::ItemBracket | K::ItemParen | K::ItemFormula => {
            let mut v = vec![];
            kids(n, &mut v);
            let open = v.remove(0);
            let first = n.first_child_or_token().unwrap().kind();
            let closed = n.children_with_tokens().count() > 1 && n.last_child_or_token().map(|c| c.kind()) == closer_of(n.kind(), first);
            if closed {
                v.pop();
            }
            let c = match n.kind() {
                K::ItemFormula => '$',
                _ => open.chars().next().unwrap(),
            };
            o.push(format!("<{c}"));
            o.append(&mut v);
            o.push(end(closed));
        }
        K::ItemCmd => {
            let name = n.children_with_tokens().filter_map(|c| c.into_token()).find(|t| t.kind() == K::ClauseCommandName);
            o.push(format!("<{}", name.map(|t| t.text().to_string()).unwrap_or_default()));
            args(n, o);
            for t in n.children_with_tokens().filter(|c| !matches!(c.kind(), K::ClauseArgument | K::ClauseCommandName)) {
                if !matches!(t.kind(), K::TokenLineBreak | K::TokenWhiteSpace | K::TokenComment) {
                    o.push(format!("stray {:?}", t.kind()));
                }
            }
            o.push(">".into());
        }
        K::ItemAttachComponent => {
            let mut base = true;
            let mut mark = false;
            for c in n.children_with_tokens() {
                match c {
                    SyntaxElement::Node(c) if base && c.kind() == K::ClauseArgument => kids(&c, o),
                    SyntaxElement::Token(t) if base && !mark && matches!(t.kind(), K::TokenUnderscore | K::TokenCaret) => {
                        o.push(format!("<{}", t.text()));
                        mark = true;
                    }
                    SyntaxElement::Node(c) => {
                        base = false;
                        tree_print(&c, o)
                    }
                    SyntaxElement::Token(t) => match t.kind() {
                        K::TokenLineBreak | K::TokenWhiteSpace | K::TokenComment => {}
                        _ => o.push(t.text().to_string()),
                    },
                }
            }
            o.push(">".into());
        }
        K::ItemEnv => {
            let mut closed = false;
            for c in n.children_with_tokens() {
                match c {
                    SyntaxElement::Node(c) if c.kind() == K::ItemBegin => {
                        let name = c.first_token().map(|t| t.text().to_string()).unwrap_or_default();
                        o.push(format!("<begin {name}"));
                        args(&c, o);
                    }
                    SyntaxElement::Node(c) if c.kind() == K::ItemEnd => closed = true,
                    SyntaxElement::Node(c) => tree_print(&c, o),
                    SyntaxElement::Token(t) => match t.kind() {
                        K::TokenLineBreak | K::TokenWhiteSpace | K::TokenComment => {}
                        _ => o.push(t.text().to_string()),
                    },
                }
            }
            o.push(end(closed));
        }
        K::ItemLR => {
            let lr: Vec<String> = n.children().filter(|c| c.kind() == K::ClauseLR).map(|c| c.text().to_string()).collect();
            let d = |i: usize, p: &str| lr.get(i).and_then(|t| t.strip_prefix(p)).map_or("none".to_string(), |t| t.trim().to_string());
            o.push(format!("<left {}", d(0, "\\left")));
            for c in n.children_with_tokens().filter(|c| c.kind() != K::ClauseLR) {
                match c {
                    SyntaxElement::Node(c) => tree_print(&c, o),
                    SyntaxElement::Token(t) => match t.kind() {
                        K::TokenLineBreak | K::TokenWhiteSpace | K::TokenComment => {}
                        _ => o.push(t.text().to_string()),
                    },
                }
            }
            o.push(format!("{}>", d(1, "\\right")));
        }
        K::ItemText | K::ScopeRoot => kids(n, o),
        k => {
            o.push(format!("{k:?}"));
            kids(n, o);
        }
    }
}

/// Reference parser: items as plain lists, no checkpoints.
struct Ref<'a> {
    t: &'a [(T, &'a str)],
    i: usize,
    /// part of the current word that is already taken
    off: usize,
    cmds: &'a std::collections::HashMap<String, Pat>,
    envs: &'a std::collections::HashMap<String, Pat>,
    /// arguments that were stopped by something, for statistics
    stops: usize,
    /// groups that are not closed
    open: usize,
}
struct List {
    scope: Scope,
    out: Vec<N>,
    start: Option<usize>,
    last: Option<usize>,
}
type R<X> = Option<X>;
impl Ref<'_> {
    fn peek(&self) -> Option<T> {
        self.t.get(self.i).map(|t| t.0)
    }
    fn eat(&mut self) -> String {
        let t = self.t[self.i].1[self.off..].to_string();
        self.i += 1;
        self.off = 0;
        t
    }
    fn stops(&self, sc: Scope, t: T) -> bool {
        use Scope::*;
        let curly = t == T::Right(B::Curly);
        let end = t == T::CommandName(C::EndEnvironment);
        let right = t == T::CommandName(C::Right);
        match sc {
            Root => false,
            Dollar => curly || end || right || t == T::Dollar,
            CmdMath => curly || end || right || t == T::CommandName(C::EndMath),
            Env => curly || end,
            Curly => curly,
            Bracket => curly || end || right || t == T::Right(B::Bracket),
            Paren => curly || end || right || t == T::Right(B::Paren),
            Lr => curly || end || right,
        }
    }
    fn list(&mut self, scope: Scope) -> R<Vec<N>> {
        let mut l = List { scope, out: vec![], start: Some(0), last: None };
        while let Some(t) = self.peek() {
            if self.stops(scope, t) {
                break;
            }
            self.item(&mut l)?;
            if scope == Scope::Env && matches!(t, T::Ampersand | T::NewLine) {
                l.start = Some(l.out.len());
            }
        }
        Some(l.out)
    }
    fn greedy(&mut self, scope: Scope) -> R<Vec<N>> {
        let mut l = List { scope, out: vec![], start: Some(0), last: None };
        while let Some(t) = self.peek() {
            if self.stops(scope, t) || t == T::Ampersand || (t == T::NewLine && scope == Scope::Env) {
                break;
            }
            self.item(&mut l)?;
        }
        Some(l.out)
    }
    /// one item of a list
    fn item(&mut self, l: &mut List) -> R<()> {
        let t = self.peek()?;
        let at = l.out.len();
        match t {
            T::LineBreak | T::Whitespace | T::LineComment => {
                self.eat();
                return Some(());
            }
            T::Ampersand | T::NewLine => {
                l.out.push(N::Leaf(self.eat()));
                l.last = None;
                return Some(());
            }
            T::Word | T::Comma => {
                while let Some(T::Word | T::Comma | T::LineBreak | T::Whitespace | T::LineComment) = self.peek() {
                    let tr = is_trivia(self.peek()?);
                    let x = self.eat();
                    if !tr {
                        l.out.push(N::Leaf(x));
                    }
                }
            }
            T::Underscore | T::Caret => {
                let m = self.eat();
                while self.peek().is_some_and(is_trivia) {
                    self.eat();
                }
                let n = self.peek()?;
                if self.stops(l.scope, n) || matches!(n, T::Underscore | T::Caret | T::Ampersand | T::NewLine | T::Dollar) {
                    return None;
                }
                let x = match n {
                    T::Word => self.char(),
                    _ => self.single(l.scope)?,
                };
                let base = l.last.map(|i| l.out.drain(i..).collect()).unwrap_or_default();
                l.out.push(N::Attach(base, m, x));
                return Some(());
            }
            T::Dollar | T::CommandName(C::BeginMath) => {
                let x = self.single(l.scope)?;
                l.out.extend(x);
                l.last = None;
                return Some(());
            }
            T::CommandName(C::Generic) => {
                let name = self.t[self.i].1.to_string();
                match self.cmds.get(&name[1..]) {
                    Some(Pat::Left1) => {
                        self.eat();
                        // exactly one item before it
                        let i = l.last?;
                        if l.out.len() != i + 1 {
                            return None;
                        }
                        let a = l.out.drain(i..).collect();
                        l.out.push(N::Cmd(name, vec![a]));
                        return Some(());
                    }
                    Some(Pat::Infix) => {
                        self.eat();
                        let i = l.start.take()?;
                        let a = l.out.drain(i..).collect();
                        let r = self.greedy(l.scope)?;
                        l.out.push(N::Cmd(name, vec![a, r]));
                        l.last = None;
                        return Some(());
                    }
                    Some(Pat::Greedy) => {
                        self.eat();
                        let r = self.greedy(l.scope)?;
                        l.out.push(N::Cmd(name, vec![r]));
                        l.last = None;
                        return Some(());
                    }
                    _ => {
                        let x = self.single(l.scope)?;
                        l.out.extend(x);
                    }
                }
            }
            _ => {
                let x = self.single(l.scope)?;
                l.out.extend(x);
            }
        }
        l.last = Some(at);
        Some(())
    }
    fn char(&mut self) -> Vec<N> {
        let w = &self.t[self.i].1[self.off..];
        let c = w.chars().next().unwrap();
        if c.len_utf8() == w.len() {
            self.eat();
        } else {
            self.off += c.len_utf8();
        }
        vec![N::Leaf(c.to_string())]
    }
    /// one item on its own (as an argument, or in a list)
    fn single(&mut self, scope: Scope) -> R<Vec<N>> {
        let t = self.peek()?;
        Some(match t {
            T::Left(B::Curly) => vec![self.group('{', Scope::Curly)?],
            T::Dollar => vec![self.group('$', Scope::Dollar)?],
            T::CommandName(C::BeginMath) => vec![self.group('$', Scope::CmdMath)?],
            T::CommandName(C::BeginEnvironment) => {
                let name = self.eat();
                let pat = self.envs.get(&name).cloned().unwrap_or(Pat::None);
                let args = self.args(&pat, scope)?;
                let body = self.list(Scope::Env)?;
                let closed = self.peek() == Some(T::CommandName(C::EndEnvironment));
                if closed {
                    self.eat();
                }
                self.open += !closed as usize;
                vec![N::Env(name, args, body, closed)]
            }
            T::CommandName(C::Left) => {
                self.eat();
                let d = self.delim()?;
                let body = self.list(Scope::Lr)?;
                if self.peek() != Some(T::CommandName(C::Right)) {
                    self.open += 1;
                    return Some(vec![N::Lr(d, body, "none".into())]);
                }
                self.eat();
                vec![N::Lr(d, body, self.delim()?)]
            }
            T::CommandName(C::Generic) => {
                let name = self.eat();
                match self.cmds.get(&name[1..]).cloned().unwrap_or(Pat::None) {
                    Pat::Left1 | Pat::Infix => return None,
                    Pat::Greedy => {
                        let g = self.greedy(scope)?;
                        vec![N::Cmd(name, vec![g])]
                    }
                    p => {
                        let a = self.args(&p, scope)?;
                        vec![N::Cmd(name, a)]
                    }
                }
            }
            T::CommandName(_) | T::Right(B::Curly) => return None,
            _ => vec![N::Leaf(self.eat())],
        })
    }
    fn delim(&mut self) -> R<String> {
        while self.peek().is_some_and(is_trivia) {
            self.eat();
        }
        match self.peek()? {
            T::Word => match self.char().pop()? {
                N::Leaf(x) => Some(x),
                _ => None,
            },
            T::Left(B::Bracket | B::Paren) | T::Right(B::Bracket | B::Paren) | T::CommandName(C::Generic) => Some(self.eat()),
            _ => None,
        }
    }
    fn group(&mut self, c: char, scope: Scope) -> R<N> {
        self.eat();
        let v = self.list(scope)?;
        let t = self.peek();
        let closed = t == Some(match scope {
            Scope::Curly => T::Right(B::Curly),
            Scope::Bracket => T::Right(B::Bracket),
            Scope::Paren => T::Right(B::Paren),
            Scope::Dollar => T::Dollar,
            _ => T::CommandName(C::EndMath),
        });
        if closed {
            self.eat();
        }
        self.open += !closed as usize;
        Some(N::Group(c, v, closed))
    }
    /// the arguments after the head of a command
    fn args(&mut self, pat: &Pat, scope: Scope) -> R<Vec<Vec<N>>> {
        let mut seen = vec![];
        let mut out = vec![];
        let ambiguous = std::cell::Cell::new(false);
        let accepts = |seen: &[u8], k: u8| match pat {
            Pat::None => false,
            Pat::Terms(n) => k == b't' && seen.len() < *n,
            Pat::Glob(g) => {
                let mut v = seen.to_vec();
                v.push(k);
                let m = globref::matches(g, &v, false);
                if m != globref::matches(g, &v, true) {
                    ambiguous.set(true);
                }
                m.1
            }
            _ => unreachable!(),
        };
        if matches!(pat, Pat::None | Pat::Terms(0)) {
            return Some(out);
        }
        loop {
            let (i0, o0) = (self.i, self.off);
            while self.peek().is_some_and(is_trivia) {
                self.eat();
            }
            let back = |r: &mut Self| {
                r.i = i0;
                r.off = o0;
                r.stops += 1;
            };
            let Some(t) = self.peek() else {
                back(self);
                return Some(out);
            };
            // brackets are terms for commands that do not tell them apart
            let k = match (t, pat) {
                (T::Left(B::Bracket), Pat::Glob(_)) => b'b',
                (T::Left(B::Paren), Pat::Glob(_)) => b'p',
                _ => b't',
            };
            let stop = matches!(t, T::Ampersand | T::Caret | T::Underscore | T::CommandName(C::EndEnvironment)) || self.stops(scope, t) || !accepts(&seen, k);
            if ambiguous.get() {
                return None;
            }
            if stop {
                back(self);
                return Some(out);
            }
            let a = match t {
                T::Word => self.char(),
                T::Left(B::Bracket) if k == b'b' => vec![self.group('[', Scope::Bracket)?],
                T::Left(B::Paren) if k == b'p' => vec![self.group('(', Scope::Paren)?],
                _ => self.single(scope)?,
            };
            seen.push(k);
            out.push(a);
        }
    }
}

/// a glob over argument kinds without ambiguity (see C09)
fn glob(s: &mut Src) -> Vec<G> {
    let kind = |s: &mut Src| G::Lit(*b"tbp".get(s.weighted(&[4, 2, 1])).unwrap());
    match s.below(4) {
        0 => vec![G::Alt(vec![vec![], vec![G::Lit(b'b')]]), G::Lit(b't')],
        _ => {
            let n = s.range(1, 4);
            (0..n)
                .map(|_| match s.below(9) {
                    0 | 1 => G::Alt(vec![vec![], vec![kind(s)]]),
                    2 => G::Alt((0..s.range(1, 3)).map(|_| (0..s.range(1, 2)).map(|_| kind(s)).collect()).collect()),
                    3 => G::Any,
                    4 => G::Star,
                    _ => kind(s),
                })
                .collect()
        }
    }
}
const CN: &[&str] = &["a", "b", "c", "d", "foo", "bar", "frac", "sqrt", "over", "limits", "displaystyle", "g", "h", "*", "!"];
const EN: &[&str] = &["e", "array", "f*", "matrix"];
/// A specification, as the reference sees it and as the library does.
type Pats = std::collections::HashMap<String, Pat>;
fn random_spec(s: &mut Src) -> (Pats, Pats, CommandSpec, String) {
    let mut m: std::collections::HashMap<String, CommandSpecItem> = Default::default();
    let (mut cm, mut em) = (Pats::new(), Pats::new());
    let mut text = String::new();
    let pattern = |s: &mut Src, w: &[usize]| -> (Pat, ArgPattern) {
        match s.weighted(w) {
            0 => (Pat::None, ArgPattern::None),
            1 => {
                let n = s.range(0, 4);
                (Pat::Terms(n), ArgPattern::FixedLenTerm { len: n as u8 })
            }
            2 => {
                let min = s.below(3);
                let n = min + s.below(3);
                (Pat::Terms(n), ArgPattern::RangeLenTerm { min: min as u8, max: n as u8 })
            }
            3 => {
                let g = glob(s);
                let mut t = String::new();
                globref::write(&g, &mut t);
                (Pat::Glob(g), ArgPattern::Glob { pattern: t[..].into() })
            }
            _ => (Pat::Greedy, ArgPattern::Greedy),
        }
    };
    for _ in 0..s.range(1, 7) {
        let n = s.pick(CN);
        let (p, args) = match s.below(9) {
            0 => (Pat::Left1, ArgShape::Left1),
            1 => (Pat::Infix, ArgShape::InfixGreedy),
            _ => {
                let (p, a) = pattern(s, &[1, 4, 3, 6, 1]);
                (p, ArgShape::Right { pattern: a })
            }
        };
        m.insert(n.into(), CommandSpecItem::Cmd(CmdShape { args, alias: None }));
        cm.insert(n.into(), p);
    }
    for _ in 0..s.range(0, 2) {
        let n = s.pick(EN);
        let (p, args) = pattern(s, &[1, 3, 2, 4]);
        m.insert(n.into(), CommandSpecItem::Env(EnvShape { args, ctx_feature: ContextFeature::None, alias: None }));
        em.insert(n.into(), p);
    }
    let show = |v: &Pats, what: &str| {
        let mut v: Vec<String> = v
            .iter()
            .map(|(k, p)| {
                format!("{what}{k}: {}", match p {
                    Pat::Glob(g) => {
                        let mut t = "glob ".to_string();
                        globref::write(g, &mut t);
                        t
                    }
                    p => format!("{p:?}"),
                })
            })
            .collect();
        v.sort();
        v.join("; ")
    };
    text.push_str(&show(&cm, "\\"));
    if !em.is_empty() {
        text.push_str("; ");
        text.push_str(&show(&em, "env "));
    }
    (cm, em, CommandSpec::new(m.into_iter().collect()), text)
}
struct Soup<'a> {
    s: &'a mut Src,
    cmds: Vec<String>,
    envs: Vec<String>,
    out: String,
    left: usize,
    sloppy: bool,
    big: usize,
    deepest: usize,
}
impl Soup<'_> {
    fn put(&mut self, t: &str) {
        // keep words from joining commands
        if t.starts_with(|c: char| c.is_alphabetic() || c == '*') && self.out.rfind('\\').is_some_and(|i| self.out[i + 1..].chars().all(|c| c.is_ascii_alphabetic())) {
            self.out.push(' ');
        }
        self.out.push_str(t);
    }
    /// the end of a group, which may be missing
    fn close(&mut self, t: &str) {
        if !self.sloppy || self.s.chance(5, 6) {
            self.put(t);
        }
    }
    fn items(&mut self, depth: usize, formula: bool) {
        let n = if self.big > 0 && self.s.chance(1, 5) {
            self.big -= 1;
            let top = self.s.of(&[12, 40, 300]);
            self.s.range(5, top)
        } else if self.deepest > 7 {
            self.s.range(1, 4)
        } else {
            self.s.below(5)
        };
        for _ in 0..n {
            self.item(depth, formula);
        }
    }
    fn item(&mut self, depth: usize, formula: bool) {
        if self.left == 0 {
            return self.put("z");
        }
        self.left -= 1;
        let deep = depth < self.deepest;
        match self.s.weighted(&[5, 4, 9, 4, 3, 2, 2, 2, 1, 1, 1, 1]) {
            0 => {
                let w = self.s.pick(&["x", "ab", "abcd", "1", "é2"]);
                self.put(w)
            }
            1 => {
                let w = self.s.pick(&[" ", "\n", "%c\n", "  "]);
                self.put(w)
            }
            2 => {
                let i = self.s.below(self.cmds.len());
                let c = format!("\\{}", self.cmds[i]);
                self.put(&c)
            }
            3 if deep => {
                self.put("{");
                self.items(depth + 1, false);
                self.close("}");
            }
            4 if deep => {
                self.put("[");
                self.items(depth + 1, formula);
                self.close("]");
            }
            5 if deep => {
                self.put("(");
                self.items(depth + 1, formula);
                self.close(")");
            }
            6 => {
                let w = self.s.pick(&["&", "\\\\", ",", "/", "]", ")", ";"]);
                self.put(w)
            }
            7 => {
                let w = self.s.pick(&["_", "^", "_ "]);
                self.put(w);
                let w = self.s.pick(&["x", "ab", "{c d}"]);
                if self.s.chance(1, 3) { self.item(depth, formula) } else { self.put(w) }
            }
            8 if deep && !self.envs.is_empty() => {
                let i = self.s.below(self.envs.len());
                let e = self.envs[i].clone();
                self.put(&format!("\\begin{{{e}}}"));
                self.items(depth + 1, formula);
                self.close(&format!("\\end{{{e}}}"));
            }
            9 if deep => {
                let d = self.s.pick(&["(", ".", "[", "|"]);
                self.put("\\left");
                self.put(d);
                self.items(depth + 1, formula);
                self.close("\\right.");
            }
            10 if deep && !formula && !self.out.ends_with('$') => {
                self.put("$");
                self.put("y");
                self.items(depth + 1, true);
                self.put("w");
                self.close("$");
            }
            11 if deep => {
                self.put("\\(");
                self.items(depth + 1, formula);
                self.close("\\)");
            }
            _ => self.put("q"),
        }
    }
}
fn arguments(s: &mut Src, o: &mut Obs, (left, big, deepest): (usize, usize, usize)) -> Res {
    let (cm, em, spec, shown) = random_spec(s);
    let mut cmds: Vec<String> = cm.keys().cloned().collect();
    cmds.sort();
    if s.chance(1, 4) {
        cmds.push("alpha".into());
    }
    let mut envs: Vec<String> = em.keys().cloned().collect();
    envs.push("plainenv".into());
    envs.sort();
    let sloppy = s.chance(1, 3);
    let mut g = Soup { s, cmds, envs, out: String::new(), left, sloppy, big, deepest };
    for _ in 0..g.s.range(2, 9) {
        g.item(0, false);
    }
    let text = g.out;
    o.show(format!("{text}\n   where {shown}"));
    let toks = reflex::tokens(&text, &|n| cm.contains_key(n) || em.contains_key(n));
    let mut r = Ref { t: &toks, i: 0, off: 0, cmds: &cm, envs: &em, stops: 0, open: 0 };
    let Some(want) = r.list(Scope::Root) else {
        o.label("out of the domain");
        return Ok(());
    };
    let mut w = vec![];
    print(&want, &mut w);
    let taken = w.iter().filter(|x| *x == "(").count();
    o.nontrivial = taken >= 2;
    o.label_if(r.open > 0, "unclosed group");
    o.label_if(r.stops > 0, "arguments stop early");
    o.label_if(w.iter().any(|x| x == "<["), "bracket argument");
    o.label_if(w.iter().any(|x| x.starts_with("<begin")), "environment");
    if dry() {
        return Ok(());
    }
    let tree = guarded(|| mitex_parser::parse_without_macro(&text, spec.clone()))?;
    let mut got = vec![];
    tree_print(&tree, &mut got);
    if got != w {
        return Err(format!("tree      {}\nexpected  {}", got.join(" "), w.join(" ")));
    }
    Ok(())
}

fn main() {
    main_for(vec![
        Property {
            id: "C02",
            rule: "at least four tokens with a command, brace or formula (nesting: at least three groups)",
            assumptions: &["nesting up to a hundred levels", "macro definitions that are not recursive"],
            subs: vec![
                sub("leaves", 2_000_000, 20_000_000, leaves),
                sub("leaves-after-macros", 1_000_000, 10_000_000, leaves_macro),
                sub("nesting", 800_000, 10_000_000, |s, o| nesting(s, o, (60, 0, 7))),
                sub("large", 40_000, 1_000_000, |s, o| nesting(s, o, (500, 2, 40))),
            ],
        },
        Property {
            id: "C03",
            rule: "the commands and environments of the text take at least two arguments",
            assumptions: &[
                "globs are not ambiguous (see C09)",
                "a command that takes what is before it has something before it, outside of an argument",
            ],
            subs: vec![
                sub("arguments", 3_000_000, 30_000_000, |s, o| arguments(s, o, (40, 0, 4))),
                sub("large", 60_000, 1_000_000, |s, o| arguments(s, o, (500, 2, 30))),
            ],
        },
    ]);
}
