//! Totality, validity of what is accepted, purity.
use mitex_lexer::Lexer;
use mitex_parser::CommandSpec;
use mitex_spec::{ArgPattern, ArgShape, CmdShape, CommandSpecItem, ContextFeature, EnvShape};
use mitex_spec_gen::DEFAULT_SPEC;
use vk::doc::*;
use vk::specs::*;
use vk::*;

fn math(src: &str) -> Result<String, String> {
    guarded(|| mitex::convert_math(src, None)).and_then(|r| r)
}
fn text(src: &str) -> Result<String, String> {
    guarded(|| mitex::convert_text(src, None)).and_then(|r| r)
}

// ------------------------------------------------------------------ C12
/// Any result is fine, but an error says something.
fn total(what: &str, f: impl FnOnce() -> Result<String, String>) -> Res {
    match guarded(f) {
        Err(e) => Err(format!("{what} dies: {e}")),
        Ok(Err(e)) if e.trim().is_empty() => Err(format!("{what} fails without a message")),
        Ok(_) => Ok(()),
    }
}
fn all_ways(src: &str, spec: Option<&CommandSpec>) -> Res {
    let sp = || spec.unwrap_or(&DEFAULT_SPEC).clone();
    total("conversion as text", || mitex::convert_text(src, spec.cloned()))?;
    total("conversion as formula", || mitex::convert_math(src, spec.cloned()))?;
    total("parsing", || Ok(mitex_parser::parse(src, sp()).text().to_string()))?;
    total("parsing without macros", || Ok(mitex_parser::parse_without_macro(src, sp()).text().to_string()))
}
/// a well-formed document, then damaged
fn damaged(s: &mut Src) -> String {
    let mut t = String::new();
    let k = s.below(4);
    {
        let mut g = Gen { s, cfg: Cfg { len: 3, text: 2, ..MATH } };
        match k {
            0 => {
                let v = g.list(4);
                let mut x = Tex::plain();
                x.list(&v);
                t.push_str(&x.out);
            }
            1 => {
                let v = g.tdoc(4, 8, true);
                let mut x = Tex::plain();
                x.texts(&v);
                t.push_str(&x.out);
            }
            2 => {
                let v = vec![T::Figure(g.figure(3)), T::Table(g.table(3))];
                let mut x = Tex::plain();
                x.texts(&v);
                t.push_str(&x.out);
            }
            _ => {
                for _ in 0..g.s.range(1, 3) {
                    macro_piece(g.s, &mut t);
                    let v = g.tdoc(2, 3, true);
                    let mut x = Tex::plain();
                    x.texts(&v);
                    t.push_str(&x.out);
                }
                if g.s.chance(1, 4) {
                    odd_piece(g.s, &mut t);
                }
            }
        }
    }
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..s.range(0, 4) {
        if c.is_empty() {
            break;
        }
        let i = s.below(c.len());
        let n = s.range(1, 6).min(c.len() - i);
        match s.below(6) {
            0 => {
                c.drain(i..i + n);
            }
            1 => c.truncate(i),
            2 => {
                let mut p = String::new();
                gen::piece(s, &mut p, true);
                c.splice(i..i, p.chars());
            }
            3 => {
                let d: Vec<char> = c[i..i + n].to_vec();
                c.splice(i..i, d);
            }
            4 => {
                let j = s.below(c.len());
                c.swap(i, j);
            }
            _ => {
                c.drain(..i);
            }
        }
    }
    c.into_iter().collect()
}
/// Whether some macro may expand to itself: over-approximated by a name that is
/// defined and occurs more than once apart from that.
fn may_recur(t: &str) -> bool {
    const DEF: &[&str] = &["newcommand", "renewcommand", "providecommand", "DeclareRobustCommand", "newenvironment", "renewenvironment"];
    let mut names: Vec<&str> = vec![];
    let mut rest = t;
    while let Some(i) = rest.find('\\') {
        rest = &rest[i + 1..];
        let n: usize = rest.chars().take_while(|c| c.is_ascii_alphabetic() || *c == '@').map(|c| c.len_utf8()).sum();
        let n = if n == 0 { rest.chars().next().map_or(0, |c| c.len_utf8()) } else { n };
        names.push(&rest[..n]);
        rest = &rest[n..];
    }
    names.iter().enumerate().any(|(i, n)| {
        DEF.contains(n)
            && match n.ends_with("command") || n.ends_with("Command") {
                true => names.get(i + 1).is_some_and(|d| names.iter().filter(|x| x == &d).count() > 2),
                false => t.matches("begin").count() > 1,
            }
    })
}
/// A definition without its parts or never closed; swallows what follows it, so
/// it comes last.
fn odd_piece(s: &mut Src, out: &mut String) {
    let w = s.pick(&["\\newcommand", "\\newcommand{", "\\newcommand{\\f", "\\newenvironment{e}{", "\\renewcommand*", "\\newcommand\\g", "\\providecommand[", "\\newenvironment", "\\newcommand{\\f}[1][", "\\newcommand{\\begin{e}"]);
    out.push_str(w);
}
/// A macro definition or use.  A body only has names that are never defined or
/// defined before (damage may still make it recursive, hence bodies have no uses).
fn macro_piece(s: &mut Src, out: &mut String) {
    let name = s.pick(&["\\ma", "\\mb", "\\foo", "\\x"]);
    let body = s.pick(&["x", "", "#1", "#1#2", "#", "##", "\\frac{#1}{#2}", "\\iffalse", "#1\\fi", "\\begin{matrix}#1", "\\end{matrix}", "\\left(", "$", "#9", "#\u{e9}", "\\\\"]);
    let n = s.pick(&["", "[1]", "[2]", "[0]", "[9]", "[x]", "[1][d]", "[2][{}]", "[10]", "[-1]", "[\u{0663}]", "[1"]);
    let star = s.pick(&["", "*"]);
    match s.below(6) {
        0..=2 => {
            let cmd = s.pick(&["\\newcommand", "\\renewcommand", "\\providecommand", "\\DeclareRobustCommand", "\\DeclareTextCommand", "\\DeclareTextCommandDefault", "\\ProvideTextCommand", "\\ProvideTextCommandDefault"]);
            out.push_str(&format!("{cmd}{star}{{{name}}}{n}{{{body}}}"));
        }
        3 => {
            let cmd = s.pick(&["\\newenvironment", "\\renewenvironment"]);
            out.push_str(&format!("{cmd}{star}{{{}}}{n}{{{body}}}{{{}}}", &name[1..], s.pick(&["y", "", "\\end{x}", "#1"])));
        }
        4 => out.push_str(&format!("\\begin{{{0}}}a\\end{{{0}}}", &name[1..])),
        _ => {
            out.push_str(name);
            out.push_str(s.pick(&["", "{a}", "{a}{b}", "[o]{a}", "[", "{", " x"]));
        }
    }
}
fn c12() -> Property {
    let busy = |t: &str| t.chars().count() >= 4 && t.contains(['\\', '{', '$', '_', '^']);
    Property {
        id: "C12",
        rule: "the text has at least four characters and one that is not plain text",
        assumptions: &["recursive macro definitions are excluded", "nesting up to some hundred levels", "specifications have valid glob patterns and no greedy environments", "an endless loop shows as running out of the allocation budget or as an error exit"],
        subs: vec![
            sub("soup", 500_000, 20_000_000, move |s, o| {
                let src = gen::soup(s, true);
                o.show(src.clone());
                o.nontrivial = busy(&src);
                if dry() {
                    return Ok(());
                }
                all_ways(&src, None)
            }),
            sub("damaged", 600_000, 20_000_000, move |s, o| {
                let src = damaged(s);
                o.show(src.clone());
                let out = may_recur(&src);
                o.label_if(out, "not converted, a macro may be recursive");
                o.nontrivial = busy(&src) && !out;
                if dry() || out {
                    return Ok(());
                }
                all_ways(&src, None)
            }),
            sub("macros", 400_000, 10_000_000, move |s, o| {
                let mut src = String::new();
                for _ in 0..s.range(1, 10) {
                    if s.chance(1, 3) {
                        gen::piece(s, &mut src, true);
                    } else {
                        macro_piece(s, &mut src);
                    }
                }
                if s.chance(1, 4) {
                    odd_piece(s, &mut src);
                    gen::piece(s, &mut src, true);
                }
                o.show(src.clone());
                o.nontrivial = src.contains("\\new") || src.contains("command");
                if dry() {
                    return Ok(());
                }
                all_ways(&src, None)
            }),
            sub("specifications", 400_000, 10_000_000, move |s, o| {
                let sp = any_spec(s);
                let mut src = String::new();
                for _ in 0..s.range(1, 20) {
                    if s.chance(1, 3) {
                        src.push('\\');
                        src.push_str(s.pick(NAMES));
                        src.push_str(s.pick(&["", "{a}", "[b]", "(c)", " ", "{a}{b}"]));
                    } else {
                        gen::piece(s, &mut src, true);
                    }
                }
                o.show(format!("{src}\nspecification {}", show_spec(&sp)));
                o.nontrivial = sp.items().count() > 2 && busy(&src);
                if dry() {
                    return Ok(());
                }
                all_ways(&src, Some(&sp))
            }),
            sub("nested", 40_000, 600_000, move |s, o| {
                let n = s.range(1, 200);
                let open = s.pick(&["{", "\\left(", "\\frac{", "\\begin{matrix}", "(", "[", "\\hat", "_", "^", "$", "\\sqrt[", "\\displaystyle ", "x\\over ", "\\text{$", "\\iffalse", "\\iftrue", "\\color{red}", "\\begin{itemize}\\item ", "\\limits", "'"]);
                let close = s.pick(&["", "}", "\\right)", "\\end{matrix}", ")", "]", "\\fi", "$}", "\\end{itemize}"]);
                let k = s.range(0, n);
                let src = format!("{}x{}", open.repeat(n), close.repeat(k));
                o.show(src.clone());
                o.nontrivial = n > 20;
                if dry() {
                    return Ok(());
                }
                all_ways(&src, None)
            }),
            sub("lexer", 300_000, 10_000_000, move |s, o| {
                let src = if s.chance(1, 2) { gen::soup(s, true) } else { damaged(s) };
                let plan: Vec<(usize, usize)> = (0..s.range(4, 60)).map(|_| (s.below(4), s.range(1, 3))).collect();
                o.show(format!("{src} plan {plan:?}"));
                o.nontrivial = busy(&src);
                if dry() {
                    return Ok(());
                }
                total("lexing", || {
                    let mut lx: Lexer<()> = Lexer::new(&src, DEFAULT_SPEC.clone());
                    let mut k = 0;
                    // every step consumes something
                    while lx.peek().is_some() {
                        let (op, n) = plan[k % plan.len()];
                        k += 1;
                        match op {
                            0 => {
                                let t = lx.peek_text().unwrap_or_default();
                                let n: usize = t.chars().take(n).map(|c| c.len_utf8()).sum();
                                if n < t.len() {
                                    lx.consume_utf8_bytes(n);
                                } else {
                                    lx.eat();
                                }
                            }
                            _ => {
                                lx.eat();
                            }
                        }
                        if k > src.len() + 10 {
                            return Err(String::new());
                        }
                    }
                    Ok(String::new())
                })
            }),
        ],
    }
}

// ------------------------------------------------------------------ C13
fn valid_math(src: &str) -> Res {
    let got = math(src).map_err(|e| format!("conversion failed: {e}"))?;
    tsyn::check_math(&got).map(|_| ()).map_err(|e| format!("{e}\n  from {src}"))
}
fn valid_text(src: &str) -> Res {
    let got = text(src).map_err(|e| format!("conversion failed: {e}"))?;
    tsyn::check_text(&got).map(|_| ()).map_err(|e| format!("{e}\n  from {src}"))
}
/// Symbols whose alias in the shipped specification is a bare delimiter or ends
/// with a colon (known findings).  A failure is theirs if it is gone with other
/// symbols in their place.
const BARE: &[&str] = &[
    "lceil", "rceil", "lfloor", "rfloor", "lgroup", "rgroup", "lBrace", "rBrace", "llcorner", "lrcorner", "ulcorner", "urcorner", "rmoustache",
    "textbraceleft", "textbraceright", "textasciitilde",
];
const COLON: &[&str] = &["approxcolon", "approxcoloncolon"];
fn excuse(src: &str, check: impl Fn(&str) -> Res) -> Res {
    let Err(e) = check(src) else { return Ok(()) };
    let without = |src: &str, names: &[&str]| {
        reflex::tokens(src, &|n| DEFAULT_SPEC.get(n).is_some())
            .iter()
            .zip(spans(src))
            .map(|(t, raw)| if t.1.strip_prefix('\\').is_some_and(|n| names.contains(&n)) { "\\alpha" } else { raw })
            .collect::<String>()
    };
    for (sig, names) in [("bare-delimiter-alias", BARE), ("alias-with-colon", COLON)] {
        let other = without(src, names);
        if other != src && check(&other).is_ok() {
            return Err(format!("[sig:{sig}] {e}"));
        }
    }
    let other = without(&without(src, BARE), COLON);
    if other != src && check(&other).is_ok() {
        return Err(format!("[sig:bare-delimiter-alias] {e}"));
    }
    Err(e)
}
/// the raw text of every token (environment markers in full)
fn spans(src: &str) -> Vec<&str> {
    let mut out = vec![];
    let mut at = 0;
    let toks = reflex::tokens(src, &|n| DEFAULT_SPEC.get(n).is_some());
    for (i, (t, x)) in toks.iter().enumerate() {
        use mitex_lexer::{CommandName as C, Token as K};
        let end = match t {
            K::CommandName(C::BeginEnvironment | C::EndEnvironment) => {
                // up to where the rest lexes to the remaining tokens
                let mut e = at + src[at..].find('}').map_or(0, |e| e + 1);
                while reflex::tokens(&src[e..], &|n| DEFAULT_SPEC.get(n).is_some()).len() != toks.len() - i - 1 {
                    e += src[e..].find('}').map_or(src.len() - e, |e| e + 1);
                }
                e
            }
            _ => at + x.len(),
        };
        out.push(&src[at..end]);
        at = end;
    }
    out
}
/// the commands of the specification by shape, in a fixed order
pub struct Names {
    sym: Vec<&'static str>,
    fixed: Vec<(&'static str, usize)>,
    greedy: Vec<&'static str>,
    infix: Vec<&'static str>,
    left: Vec<&'static str>,
    void: Vec<&'static str>,
    env: Vec<(&'static str, usize)>,
}
fn names() -> Names {
    let mut n = Names { sym: vec![], fixed: vec![], greedy: vec![], infix: vec![], left: vec![], void: vec![], env: vec![] };
    let mut all: Vec<_> = DEFAULT_SPEC.items().collect();
    all.sort_by_key(|x| x.0);
    for (k, i) in all {
        let k: &'static str = k;
        // those with an own syntax have subs of their own
        if ["color", "left", "right", "begin", "end", "item", "label", "includegraphics", "mitexrecurse", "caption", "tag", "middle", ""].contains(&k) {
            continue;
        }
        // conditionals and definitions are not formulas
        if k.starts_with("if") || ["else", "fi", "@ifstar"].contains(&k) || ["newcommand", "Command", "environment", "AtBegin", "AtEnd"].iter().any(|x| k.contains(x)) {
            continue;
        }
        match i {
            CommandSpecItem::Cmd(CmdShape { args, alias }) => {
                // text commands
                if alias.as_deref().unwrap_or("").starts_with('#') {
                    continue;
                }
                match args {
                    ArgShape::Right { pattern: ArgPattern::None } => {
                        if alias.as_deref() == Some("") {
                            n.void.push(k);
                        }
                        n.sym.push(k)
                    }
                    ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len } } => n.fixed.push((k, *len as usize)),
                    ArgShape::Right { pattern: ArgPattern::Greedy } => n.greedy.push(k),
                    ArgShape::InfixGreedy => n.infix.push(k),
                    ArgShape::Left1 => n.left.push(k),
                    _ => {}
                }
            }
            CommandSpecItem::Env(e) => {
                if matches!(e.ctx_feature, ContextFeature::IsMath | ContextFeature::IsMatrix | ContextFeature::IsCases) {
                    match &e.args {
                        ArgPattern::None => n.env.push((k, 0)),
                        ArgPattern::FixedLenTerm { len } => n.env.push((k, *len as usize)),
                        _ => {}
                    }
                }
            }
        }
    }
    n
}
struct Free<'a> {
    n: &'a Names,
    s: &'a mut Src,
    o: String,
}
impl Free<'_> {
    fn put(&mut self, t: &str) {
        let mut x = Tex::plain();
        x.out = std::mem::take(&mut self.o);
        x.put(t);
        self.o = x.out;
    }
    fn cmd(&mut self, n: &str) {
        self.put(&format!("\\{n}"));
    }
    fn arg(&mut self, d: usize) {
        self.put("{");
        self.list(d);
        self.put("}");
    }
    fn list(&mut self, d: usize) {
        for _ in 0..self.s.range(0, if d > 1 { 4 } else { 2 }) {
            self.item(d);
        }
    }
    fn item(&mut self, d: usize) {
        let deep = if d > 0 { 1 } else { 0 };
        match self.s.weighted(&[6, 6, 4 * deep, 3, 3 * deep, deep, deep, 2 * deep, 2 * deep, deep, 1]) {
            0 => {
                let w = self.s.pick(&["a", "x1", "12", "=", "+", "-", "<", ">", "|", "!", "?", ":", ".", "`", "é", "中", "ab", "->", "...", "1.5", "/", ",", ";", "*", "@", "\"", "~", "(", ")", "[", "]", "(a", "b]"]);
                self.put(w);
            }
            1 => {
                let n = self.s.of(&self.n.sym);
                self.cmd(n);
                // a command that leaves nothing is no base of a script
                if self.n.void.contains(&n) {
                    self.put("x");
                }
            }
            2 => {
                let (n, k) = self.s.of(&self.n.fixed);
                self.cmd(n);
                for _ in 0..k {
                    self.arg(d - 1);
                }
            }
            3 => {
                let w = self.s.pick(&[" ", "\n", "  "]);
                self.put(w);
            }
            4 => {
                let m = self.s.pick(&["_", "^"]);
                self.put(m);
                self.arg(d - 1);
                if self.s.chance(1, 3) {
                    let m = if m == "_" { "^" } else { "_" };
                    self.put(m);
                    self.arg(d - 1);
                }
            }
            5 => {
                let n = self.s.of(&self.n.greedy);
                self.put("{");
                self.cmd(n);
                self.list(d - 1);
                self.put("}");
            }
            6 => {
                let n = self.s.of(&self.n.infix);
                self.put("{");
                self.list(d - 1);
                self.cmd(n);
                self.list(d - 1);
                self.put("}");
            }
            7 => {
                let (n, k) = self.s.of(&self.n.env);
                self.put(&format!("\\begin{{{n}}}"));
                for _ in 0..k {
                    self.put("{");
                    { let w = self.s.pick(&["c", "cc", "2", "l|r"]); self.put(w); }
                    self.put("}");
                }
                for _ in 0..self.s.range(1, 4) {
                    self.list(d - 1);
                    { let w = self.s.pick(&["&", "\\\\", "\\\\\n", "& "]); self.put(w); }
                }
                self.list(d - 1);
                self.put(&format!("\\end{{{n}}}"));
            }
            8 => {
                let dl = |s: &mut Src| s.pick(&["(", ")", "[", "]", ".", "|", "\\{", "\\}", "/", "<", ">", "\\|", "\\langle", "\\rangle", "\\lfloor", "\\rceil", "\\lbrack", "\\vert", "\\Vert", "\\uparrow", "\\backslash"]);
                self.put("\\left");
                let l = dl(self.s);
                self.put(l);
                self.list(d - 1);
                self.put("\\right");
                let r = dl(self.s);
                self.put(r);
            }
            9 => {
                let n = self.s.of(&self.n.left);
                let b = self.s.of(&self.n.sym);
                self.cmd(b);
                self.cmd(n);
            }
            _ => self.put("'"),
        }
    }
}
fn c13() -> Property {
    let names = std::sync::Arc::new(names());
    let n2 = names.clone();
    Property {
        id: "C13",
        rule: "the result has a call, an attachment or markup with a formula",
        assumptions: &["trusts the typst-syntax parser", "generated documents are well-formed LaTeX; brackets that Typst also matches are typed as ASCII or as commands"],
        subs: vec![
            sub("formulas", 500_000, 12_000_000, |s, o| {
                let v = Gen { s, cfg: MATH.clone() }.list(4);
                let mut t = Tex::noisy(s);
                t.list(&v);
                let src = t.out;
                o.show(src.clone());
                o.nontrivial = src.contains(['\\', '_', '^']);
                if dry() {
                    return Ok(());
                }
                valid_math(&src)
            }),
            sub("any-command", 600_000, 15_000_000, move |s, o| {
                let mut f = Free { n: &names, s, o: String::new() };
                f.list(3);
                let src = f.o;
                o.show(src.clone());
                o.nontrivial = src.matches('\\').count() > 1;
                if dry() {
                    return Ok(());
                }
                excuse(&src, valid_math)
            }),
            sub("any-command-in-text", 300_000, 6_000_000, move |s, o| {
                let mut f = Free { n: &n2, s, o: String::new() };
                f.list(3);
                let src = f.o;
                let src = match s.below(3) {
                    0 => format!("a ${src} $ b"),
                    1 => format!("\\[{src}\\]b"),
                    _ => format!("\\begin{{equation}}{src}\\end{{equation}} b"),
                };
                o.show(src.clone());
                o.nontrivial = src.matches('\\').count() > 1;
                if dry() {
                    return Ok(());
                }
                excuse(&src, valid_text)
            }),
            sub("large", 30_000, 1_000_000, |s, o| {
                let mut g = Gen { s, cfg: Cfg { big: 2, ..MATH } };
                let d = g.s.range(1, 3);
                let mut v = g.list(d);
                if g.s.chance(1, 3) {
                    v = g.deepen(v);
                }
                let mut t = Tex::noisy(s);
                t.list(&v);
                let src = t.out;
                o.show(src.clone());
                o.nontrivial = src.contains(['\\', '_', '^']) && src.len() > 100;
                if dry() {
                    return Ok(());
                }
                valid_math(&src)
            }),
            sub("large-documents", 20_000, 600_000, |s, o| {
                let v = {
                    let mut g = Gen { s, cfg: Cfg { len: 3, text: 3, big: 2, ..MATH } };
                    let d = g.s.range(1, 3);
                    let mut v = g.tdoc(d, 6, true);
                    if g.s.chance(1, 4) {
                        v.push(T::Blank("\n\n"));
                        v.push(T::Figure(g.figure(2)));
                    }
                    if g.s.chance(1, 4) {
                        v.push(T::Table(g.table(2)));
                    }
                    v
                };
                let mut t = Tex::noisy(s);
                t.texts(&v);
                let src = t.out;
                o.show(src.clone());
                o.nontrivial = src.contains(['\\', '$']) && src.len() > 200;
                if dry() {
                    return Ok(());
                }
                valid_text(&src)
            }),
            sub("documents", 500_000, 12_000_000, |s, o| {
                let cfg = Cfg { len: 3, text: 3, ..MATH };
                let v = {
                    let mut g = Gen { s, cfg };
                    let mut v = g.tdoc(3, 6, true);
                    if g.s.chance(1, 4) {
                        v.push(T::Blank("\n\n"));
                        v.push(T::Figure(g.figure(2)));
                    }
                    if g.s.chance(1, 4) {
                        v.push(T::Table(g.table(2)));
                    }
                    v
                };
                let mut t = Tex::noisy(s);
                t.texts(&v);
                let src = t.out;
                o.show(src.clone());
                o.nontrivial = src.contains(['\\', '$']) && v.len() > 2;
                if dry() {
                    return Ok(());
                }
                valid_text(&src)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C19
type Job = (bool, usize, String);
/// three specifications that disagree about common names
fn spec_no(i: usize) -> CommandSpec {
    static ALT: std::sync::OnceLock<Vec<CommandSpec>> = std::sync::OnceLock::new();
    let alt = ALT.get_or_init(|| {
        let base: Vec<(String, CommandSpecItem)> = DEFAULT_SPEC.items().map(|(k, i)| (k.to_string(), i.clone())).collect();
        let cmd = |n: usize, a: &str| {
            let args = ArgShape::Right { pattern: if n == 0 { ArgPattern::None } else { ArgPattern::FixedLenTerm { len: n as u8 } } };
            CommandSpecItem::Cmd(CmdShape { args, alias: Some(a.to_string()) })
        };
        let mut one = base.clone();
        let mut two = base;
        for (k, i) in one.iter_mut() {
            match k.as_str() {
                "alpha" => *i = cmd(1, "one"),
                "frac" => *i = cmd(2, "onefrac"),
                "hat" => *i = cmd(0, "onehat"),
                "textbf" => *i = cmd(1, "#onebold"),
                "matrix" | "pmatrix" => *i = CommandSpecItem::Env(EnvShape { args: ArgPattern::None, ctx_feature: ContextFeature::IsCases, alias: Some("onemat".into()) }),
                _ => {}
            }
        }
        two.retain(|(k, _)| !["alpha", "matrix", "sqrt", "item"].contains(&k.as_str()));
        two.push(("ma".into(), cmd(1, "twoma")));
        two.push(("foo".into(), cmd(0, "twofoo")));
        vec![CommandSpec::new(one.into_iter().collect()), CommandSpec::new(two.into_iter().collect())]
    });
    alt[i - 1].clone()
}
fn job(j: &Job) -> Result<String, String> {
    let sp = if j.1 == 0 { None } else { Some(spec_no(j.1)) };
    guarded(|| if j.0 { mitex::convert_math(&j.2, sp) } else { mitex::convert_text(&j.2, sp) }).and_then(|r| r)
}
fn jobs(s: &mut Src, n: usize) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    for _ in 0..n {
        // the same text in another mode or under another specification
        if !v.is_empty() && s.chance(1, 4) {
            let i = s.below(v.len());
            let t = v[i].2.clone();
            v.push((s.chance(1, 2), s.below(3), t));
            continue;
        }
        let mut t = String::new();
        match s.below(6) {
            0 => {
                for _ in 0..s.range(1, 5) {
                    macro_piece(s, &mut t);
                }
                if may_recur(&t) {
                    t = "\\newcommand{\\ma}[1]{a#1}\\ma".to_string();
                }
            }
            1 => {
                for _ in 0..s.range(1, 4) {
                    t.push_str(s.pick(&["\\ma{a}", "\\foo", "\\x", "\\mb", "\\begin{ma}x\\end{ma}", "\\begin{foo}\\end{foo}", "\\alpha", "\\frac12", "\\hat x", "\\sqrt[3]{x}", "\\begin{matrix}a&b\\\\c\\end{matrix}", "\\textbf{x} "]));
                }
            }
            2 => {
                let v = Gen { s, cfg: Cfg { len: 3, text: 2, ..MATH } }.tdoc(3, 4, true);
                let mut x = Tex::plain();
                x.texts(&v);
                t = x.out;
            }
            3 => {
                let v = Gen { s, cfg: Cfg { len: 3, text: 2, ..MATH } }.list(4);
                let mut x = Tex::plain();
                x.list(&v);
                t = x.out;
            }
            4 => {
                for _ in 0..s.range(1, 8) {
                    gen::piece(s, &mut t, true);
                }
            }
            _ => t.push_str(s.pick(&[
                "\\iffalse x", "\\iftypst #x", "\\iftrue", "\\else x", "\\fi", "\\newenvironment{ma}{", "\\newcommand{\\ma}{", "\\begin{itemize}\\item a",
                "\\begin{itemize}\\item a\\begin{enumerate}\\item b", "\\item a", "\\begin{equation}a\\label{x}\\end{equation}", "\\label{", "\\label{x}", "\\unknowncmd",
                "\\begin{matrix}a&\\unknowncmd", "\\begin{cases}a\\\\b", "a & b \\\\ c", "\\begin{substack}a", "\\substack{a\\\\b\\unknowncmd}", "\\text{a $x", "$a", "\\textbf{a", "\\[x",
                "\\begin{tabular}{c|", "\\begin{figure}\\caption{x}", "\\left(a", "{", "}", "\\color{red}a", "\\section{x}",
            ])),
        }
        v.push((s.chance(1, 2), s.below(3), t));
    }
    v
}
fn show_jobs(v: &[Job]) -> String {
    let mut o = String::new();
    for j in v {
        o.push_str(&format!("{} under specification {}: {:?}\n", if j.0 { "formula" } else { "text" }, j.1, j.2));
    }
    o
}
fn order(s: &mut Src, n: usize) -> Vec<usize> {
    let k = s.range(n, 2 * n);
    (0..k).map(|i| if i < n { n - 1 - i } else { s.below(n) }).collect()
}
type Out = Vec<Result<String, String>>;
/// runs the jobs in a process of their own
fn in_process(v: &[Job]) -> Result<Out, String> {
    use std::io::Write;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("--jobs")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    c.stdin.take().unwrap().write_all(serde_json::to_string(v).unwrap().as_bytes()).expect("stdin");
    let o = c.wait_with_output().expect("wait");
    serde_json::from_slice(&o.stdout).map_err(|_| format!("the process ended with {}", o.status))
}
fn jobs_main() {
    let mut t = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).unwrap();
    let v: Vec<Job> = serde_json::from_str(&t).unwrap();
    let out: Out = v.iter().map(job).collect();
    println!("{}", serde_json::to_string(&out).unwrap());
}
fn c19() -> Property {
    let busy = |v: &[Job]| v.len() > 2 && v.iter().any(|j| j.2.contains("\\new") || j.2.contains("\\begin") || j.2.contains("\\if"));
    Property {
        id: "C19",
        rule: "more than two texts, and one defines a macro, opens an environment or a conditional",
        assumptions: &["threads run under the scheduling of the system", "texts with recursive macros are excluded"],
        subs: vec![
            sub("history", 150_000, 4_000_000, move |s, o| {
                let n = s.range(2, 6);
                let v = jobs(s, n);
                let again = order(s, n);
                o.show(show_jobs(&v));
                o.nontrivial = busy(&v);
                if dry() {
                    return Ok(());
                }
                let first: Out = v.iter().map(job).collect();
                for i in again {
                    same(&format!("text {i} again, after others"), &job(&v[i]), &first[i])?;
                }
                Ok(())
            }),
            sub("processes", 1_200, 40_000, move |s, o| {
                let n = s.range(2, 4);
                let v = jobs(s, n);
                let again = order(s, n);
                o.show(show_jobs(&v));
                o.nontrivial = busy(&v);
                if dry() {
                    return Ok(());
                }
                let mut alone = vec![];
                for j in &v {
                    alone.extend(in_process(std::slice::from_ref(j))?);
                }
                let seq: Vec<Job> = (0..n).chain(again.iter().copied()).map(|i| v[i].clone()).collect();
                let want: Out = (0..n).chain(again).map(|i| alone[i].clone()).collect();
                for (k, (got, want)) in in_process(&seq)?.iter().zip(&want).enumerate() {
                    same(&format!("{:?} after {k} other conversions and in a new process", seq[k].2), got, want)?;
                }
                Ok(())
            }),
            sub("threads", 12_000, 400_000, move |s, o| {
                let n = s.range(2, 5);
                let v = jobs(s, n);
                let rounds = s.range(2, 6);
                o.show(show_jobs(&v));
                o.nontrivial = busy(&v);
                if dry() {
                    return Ok(());
                }
                let alone: Out = v.iter().map(job).collect();
                let bar = std::sync::Barrier::new(n);
                let bad = std::sync::Mutex::new(None);
                std::thread::scope(|sc| {
                    for t in 0..n {
                        let (v, alone, bar, bad) = (&v, &alone, &bar, &bad);
                        std::thread::Builder::new()
                            .stack_size(16 << 20)
                            .spawn_scoped(sc, move || {
                                bar.wait();
                                for r in 0..rounds {
                                    let i = (t + r) % v.len();
                                    let got = job(&v[i]);
                                    if got != alone[i] {
                                        *bad.lock().unwrap() = Some((i, got));
                                    }
                                }
                            })
                            .expect("thread");
                    }
                });
                match bad.into_inner().unwrap() {
                    Some((i, got)) => same(&format!("text {i} while others are converted"), &got, &alone[i]),
                    None => Ok(()),
                }
            }),
        ],
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("--jobs") {
        std::thread::Builder::new().stack_size(64 << 20).spawn(jobs_main).unwrap().join().unwrap();
        return;
    }
    main_for(vec![c12(), c13(), c19()])
}
