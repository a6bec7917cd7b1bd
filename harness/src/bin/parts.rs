//! Each paragraph of a document, and each formula of a paragraph, converts on its own.
use mitex_parser::syntax::{SyntaxKind as K, SyntaxNode};
use mitex_spec_gen::DEFAULT_SPEC;
use mitex_spec::CommandSpecItem;
use std::sync::LazyLock;
use vk::doc::*;
use vk::*;

static CMDS: LazyLock<Vec<String>> = LazyLock::new(|| {
    let mut v: Vec<String> = DEFAULT_SPEC.items().filter(|(_, i)| matches!(i, CommandSpecItem::Cmd(_))).map(|(n, _)| n.to_string()).collect();
    v.sort();
    v
});
static ENVS: LazyLock<Vec<String>> = LazyLock::new(|| {
    let mut v: Vec<String> = DEFAULT_SPEC.items().filter(|(_, i)| matches!(i, CommandSpecItem::Env(_))).map(|(n, _)| n.to_string()).collect();
    v.sort();
    v
});
const CFG: Cfg = Cfg { len: 4, ..MATH };

fn made(s: &mut Src) -> String {
    let (max, lists) = (s.range(2, 6), s.chance(2, 3));
    let v = Gen { s, cfg: CFG }.tdoc(3, max, lists);
    let mut t = if s.chance(1, 2) { Tex::noisy(s) } else { Tex::plain() };
    t.texts(&v);
    t.out
}
fn formula(s: &mut Src) -> String {
    let mut v = Gen { s, cfg: CFG }.list(3);
    if v.is_empty() {
        v.push(M::Word(s.pick(&["x", "ab", "1"]).into()));
    }
    let mut t = if s.chance(1, 2) { Tex::noisy(s) } else { Tex::plain() };
    t.list(&v);
    t.out
}
/// Takes away, doubles, swaps or adds some of the text's tokens.
fn damage(s: &mut Src, text: &str) -> String {
    let mut v: Vec<String> = reflex::tokens(text, &|_| false).into_iter().map(|t| t.1.to_string()).collect();
    for _ in 0..s.range(1, 2) {
        if v.is_empty() {
            break;
        }
        let i = s.below(v.len());
        match s.below(4) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, v[i].clone()),
            2 => {
                let j = s.below(v.len());
                v.swap(i, j);
            }
            _ => {
                let mut p = String::new();
                gen::piece(s, &mut p, true);
                v.insert(i, p);
            }
        }
    }
    v.concat()
}
/// Defines something for the texts that follow, or refers to such.
fn defines(t: &str) -> bool {
    ["newcommand", "providecommand", "newenvironment", "newif", "\\def", "\\let", "RobustCommand", "MathOperator", "\\mitex", "\\iftrue", "\\else"].iter().any(|d| t.contains(d)) || t.matches("\\if").count() != t.matches("\\fi").count() + t.matches("\\iff").count() - t.matches("\\iffalse").count()
}
/// Nothing in it waits for an end.
fn closed(t: &str) -> bool {
    let tree: SyntaxNode = mitex_parser::parse(t, DEFAULT_SPEC.clone());
    tree.descendants().all(|n| {
        let last = n.last_child_or_token().map(|e| e.kind());
        match n.kind() {
            K::ItemCurly => last == Some(K::TokenRBrace),
            K::ItemBracket => last == Some(K::TokenRBracket),
            K::ItemParen => last == Some(K::TokenRParen),
            K::ItemEnv => last == Some(K::ItemEnd),
            K::ItemLR => n.children().filter(|c| c.kind() == K::ClauseLR).count() == 2,
            _ => true,
        }
    })
}
fn text(t: &str) -> Result<Option<String>, String> {
    guarded(|| mitex::convert_text(t, Some(DEFAULT_SPEC.clone())).ok())
}

/// The tokens of a text, with what they are part of.
fn nodes(t: &str) -> Vec<String> {
    let tree: SyntaxNode = mitex_parser::parse(t, DEFAULT_SPEC.clone());
    let tokens = tree.descendants_with_tokens().filter_map(|e| e.into_token());
    tokens.map(|t| format!("{t} {:?}", t.parent_ancestors().map(|n| n.kind()).filter(|k| *k != K::ItemText).collect::<Vec<_>>())).collect()
}
/// A command or environment of the specification with few or no arguments.
fn bare(s: &mut Src) -> String {
    let args = s.pick(&["", "", "{}", "{ }", "[]", "{a}", "{$a$}", "{a}{b}", "[a]{b}", "{l}"]);
    if s.chance(1, 2) {
        let name = s.of(ENVS.as_slice());
        let body = s.pick(&["", "", "\n", " ", "\n\n", "%\n", "{}", "a", "\\\\", "&", "\\item", "\\label{b}", "\\caption{b}", "\\hline"]);
        return format!("\\begin{{{name}}}{args}{body}\\end{{{name}}}");
    }
    let name = s.of(CMDS.as_slice());
    format!("\\{name}{args}")
}
fn blanks(t: &str) -> String {
    t.split_ascii_whitespace().collect::<Vec<_>>().join(" ")
}

fn paragraphs(s: &mut Src, o: &mut Obs, make: impl Fn(&mut Src) -> String) -> Res {
    let n = s.range(2, 3);
    sequence(s, o, n, make)
}
/// The text converts, and nothing in it or around it goes on into the other.
fn alone(t: &str) -> bool {
    let p = format!("Qq {t}\nqQ");
    if defines(&p) || !closed(&p) || !matches!(text(&p), Ok(Some(_))) {
        return false;
    }
    let own = nodes(&p);
    let (before, after) = (nodes(&format!("q\n\n{p}")), nodes(&format!("{p}\n\nq")));
    let outside = |v: &[String]| v.iter().all(|t| t.ends_with(" [ScopeRoot]"));
    after.starts_with(&own) && outside(&after[own.len()..]) && before.ends_with(&own) && outside(&before[..before.len() - own.len()])
}
fn sequence(s: &mut Src, o: &mut Obs, n: usize, make: impl Fn(&mut Src) -> String) -> Res {
    let parts: Vec<String> = (0..n).map(|_| format!("Qq {}\nqQ", make(s))).collect();
    o.show(parts.join("\n----\n"));
    if dry() {
        return Ok(());
    }
    let mut want = vec![];
    for p in &parts {
        if defines(p) || !closed(p) {
            o.label("not closed");
            return Ok(());
        }
        let Some(alone) = text(p)? else {
            o.label("does not convert");
            return Ok(());
        };
        // a command for the text before or after it
        let own = nodes(p);
        let (before, after) = (nodes(&format!("q\n\n{p}")), nodes(&format!("{p}\n\nq")));
        let outside = |v: &[String]| v.iter().all(|t| t.ends_with(" [ScopeRoot]"));
        if !after.starts_with(&own) || !outside(&after[own.len()..]) || !before.ends_with(&own) || !outside(&before[..before.len() - own.len()]) {
            o.label("goes on");
            return Ok(());
        }
        want.push(alone);
    }
    o.nontrivial = parts.iter().filter(|p| p.len() > 10).count() >= parts.len().min(4);
    let all = parts.join("\n\n");
    match text(&all)? {
        None => Err("the parts convert, the whole does not".into()),
        Some(got) => same_str("the whole and its parts", &got, &want.join("\n\n")),
    }
}

fn inline(s: &mut Src, o: &mut Obs, make: impl Fn(&mut Src) -> String) -> Res {
    let n = s.range(2, 4);
    let parts: Vec<String> = (0..n).map(|_| format!("${}$", make(s))).collect();
    let outer = s.of(&[("", ""), ("\\textbf{a ", " b}"), ("\\begin{itemize}\n\\item a ", " b\n\\end{itemize}"), ("{a ", " b}"), ("\\begin{tabular}{l}\na ", " b\\\\\n\\end{tabular}"), ("a\\label{b} ", " b")]);
    o.show(format!("{outer:?}\n{}", parts.join("\n")));
    if dry() {
        return Ok(());
    }
    let mut want = vec![];
    for p in &parts {
        let body = &p[1..p.len() - 1];
        // one formula, from its first mark to its last
        if defines(p) || p.contains("\\label") || !closed(p) || body.trim().is_empty() {
            o.label("not closed");
            return Ok(());
        }
        let tree: SyntaxNode = mitex_parser::parse(p, DEFAULT_SPEC.clone());
        let mut c = tree.children_with_tokens();
        if c.next().map(|f| f.kind()) != Some(K::ItemFormula) || c.next().is_some() {
            o.label("not one formula");
            return Ok(());
        }
        let Some(alone) = text(p)? else {
            o.label("does not convert");
            return Ok(());
        };
        want.push(alone);
    }
    // what the surroundings give for formulas of nothing but a letter
    let frame = |v: &[String]| format!("{}{}{}", outer.0, v.join(" and "), outer.1);
    let plain: Vec<String> = (0..n).map(|i| format!("$x{}y$", "z".repeat(i + 1))).collect();
    let Some(mut whole) = text(&frame(&plain))? else {
        return Err(format!("{:?} does not convert", frame(&plain)));
    };
    for (i, w) in want.iter().enumerate() {
        let p = text(&plain[i])?.unwrap_or_default();
        if whole.matches(&p).count() != 1 {
            return Err(format!("{p:?} is not found in {whole:?}"));
        }
        whole = whole.replace(&p, &format!("\u{1}{i}\u{1}"));
        let _ = w;
    }
    for (i, w) in want.iter().enumerate() {
        whole = whole.replace(&format!("\u{1}{i}\u{1}"), w);
    }
    o.nontrivial = parts.iter().all(|p| p.len() > 8);
    match text(&frame(&parts))? {
        None => Err("the formulas convert, the whole does not".into()),
        // (line breaks are followed by the indentation of their place)
        Some(got) => same_str("the whole and its formulas", &blanks(&got), &blanks(&whole)),
    }
}

fn main() {
    main_for(vec![Property {
        id: "C31",
        rule: "the parts convert and have some length each",
        assumptions: &["parts that define macros, leave something open or apply to the rest of the text are no parts of their own"],
        subs: vec![
            sub("documents", 150_000, 6_000_000, |s, o| paragraphs(s, o, made)),
            sub("damaged-documents", 500_000, 15_000_000, |s, o| {
                paragraphs(s, o, |s| {
                    let t = made(s);
                    damage(s, &t)
                })
            }),
            sub("bare", 300_000, 15_000_000, |s, o| {
                paragraphs(s, o, |s| match s.below(3) {
                    0 => format!("${}$", bare(s)),
                    1 => bare(s),
                    _ => made(s),
                })
            }),
            // (the parts that cannot be part of a whole are left out)
            sub("many", 6_000, 200_000, |s, o| {
                let top = s.of(&[10, 30, 60]);
                let n = s.range(4, top);
                sequence(s, o, n, |s| {
                    let t = match s.below(6) {
                        0 => format!("${}$", bare(s)),
                        1 => bare(s),
                        2 => {
                            let t = made(s);
                            damage(s, &t)
                        }
                        _ => made(s),
                    };
                    if alone(&t) { t } else { "left out".into() }
                })
            }),
            sub("formulas", 150_000, 6_000_000, |s, o| inline(s, o, formula)),
            sub("damaged-formulas", 500_000, 15_000_000, |s, o| {
                inline(s, o, |s| {
                    let t = formula(s);
                    damage(s, &t)
                })
            }),
        ],
    }]);
}
