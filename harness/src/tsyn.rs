//! Reading Typst code with Typst's own parser.
use typst_syntax::{parse, parse_math, SyntaxKind, SyntaxNode};

fn errors(n: &SyntaxNode) -> Option<String> {
    n.erroneous().then(|| n.errors().iter().map(|e| e.message.to_string()).collect::<Vec<_>>().join("; "))
}
/// A formula (what stands between dollars) is valid and closed.
pub fn check_math(code: &str) -> Result<SyntaxNode, String> {
    let alone = parse_math(code);
    if let Some(e) = errors(&alone) {
        return Err(format!("not valid as a formula: {e}\n  code {code}"));
    }
    let text = format!("${code}$ END");
    let whole = parse(&text);
    if let Some(e) = errors(&whole) {
        return Err(format!("not valid between dollars: {e}\n  code {code}"));
    }
    let kids: Vec<_> = whole.children().map(|c| c.kind()).collect();
    if kids != [SyntaxKind::Equation, SyntaxKind::Space, SyntaxKind::Text] {
        return Err(format!("the formula is not closed: {kids:?}\n  code {code}"));
    }
    Ok(alone)
}
/// A piece of markup is valid, and does not swallow what follows it.
pub fn check_text(code: &str) -> Result<SyntaxNode, String> {
    let alone = parse(code);
    if let Some(e) = errors(&alone) {
        return Err(format!("not valid as markup: {e}\n  code {code}"));
    }
    let text = format!("{code}\n\nEND");
    let whole = parse(&text);
    if let Some(e) = errors(&whole) {
        return Err(format!("not valid when followed by a paragraph: {e}\n  code {code}"));
    }
    let last = whole.children().next_back();
    if !last.is_some_and(|l| l.kind() == SyntaxKind::Text && l.text() == "END") {
        return Err(format!("swallows the following paragraph\n  code {code}"));
    }
    Ok(alone)
}

/// What markup says: characters, breaks, calls; blanks dropped.
pub fn events(n: &SyntaxNode) -> Vec<String> {
    let mut o = vec![];
    for c in n.children() {
        event(c, &mut o);
    }
    trim_par(&mut o, 0);
    o
}
fn trim_par(o: &mut Vec<String>, from: usize) {
    while o.len() > from && o.last().is_some_and(|x| x == "PAR") {
        o.pop();
    }
    while o.get(from).is_some_and(|x| x == "PAR") {
        o.remove(from);
    }
}
pub fn push_chars(o: &mut Vec<String>, s: &str) {
    for c in s.chars() {
        if !c.is_whitespace() {
            o.push(c.to_string());
        }
    }
}
fn nested(n: &SyntaxNode, o: &mut Vec<String>) {
    let from = o.len();
    for c in n.children() {
        event(c, o);
    }
    trim_par(o, from);
}
fn event(n: &SyntaxNode, o: &mut Vec<String>) {
    use SyntaxKind::*;
    match n.kind() {
        Space | Hash | Semicolon | LineComment | BlockComment | LeftBracket | RightBracket => {}
        Parbreak => o.push("PAR".into()),
        Linebreak => o.push("BREAK".into()),
        Text | SmartQuote | Shorthand => push_chars(o, n.text()),
        Escape => push_chars(o, &n.text()[1..]),
        Equation => o.push("FORMULA".into()),
        Label => o.push(format!("LABEL {}", n.text())),
        Markup | ContentBlock => nested(n, o),
        ListItem | EnumItem => {
            o.push(if n.kind() == ListItem { "- (" } else { "+ (" }.to_string());
            for c in n.children() {
                if !matches!(c.kind(), ListMarker | EnumMarker) {
                    event(c, o);
                }
            }
            o.push(")".into());
        }
        FuncCall => {
            let mut kids = n.children();
            let callee = kids.next().map(text_of).unwrap_or_default();
            let Some(args) = kids.next() else { return };
            let close = args.children().position(|c| c.kind() == RightParen).map_or(0, |i| i + 1);
            let plain: String = args.children().take(close).map(text_of).collect::<String>().replace([' ', '\n'], "");
            if callee == "math.equation" {
                o.push("FORMULA".into());
                return;
            }
            if callee == "image" {
                o.push(format!("#image{plain}"));
                return;
            }
            if callee == "table" {
                o.push("#table".into());
                for c in args.children() {
                    match c.kind() {
                        ContentBlock => {
                            o.push("CELL [".into());
                            nested(c, o);
                            o.push("]".into());
                        }
                        LeftParen | RightParen | Comma | Space => {}
                        _ => o.push(text_of(c).replace([' ', '\n'], "")),
                    }
                }
                o.push("END".into());
                return;
            }
            if callee == "figure" {
                o.push("#figure".into());
                for c in args.children().flat_map(|c| if c.kind() == Named { c.children().collect::<Vec<_>>() } else { vec![c] }) {
                    match c.kind() {
                        Ident => o.push(format!("{} [", c.text().to_uppercase())),
                        ContentBlock => {
                            if !o.last().is_some_and(|x| x == "CAPTION [") {
                                o.push("BODY [".into());
                            }
                            nested(c, o);
                            o.push("]".into());
                        }
                        LeftParen | RightParen | Comma | Space | Colon => {}
                        _ => o.push(text_of(c).replace([' ', '\n'], "")),
                    }
                }
                return;
            }
            o.push(format!("#{callee}{} [", plain));
            for c in args.children().skip(close).filter(|c| c.kind() == ContentBlock) {
                nested(c, o);
                o.push("]".into());
            }
        }
        k => o.push(format!("{k:?} {}", text_of(n))),
    }
}
pub fn text_of(n: &SyntaxNode) -> String {
    n.clone().into_text().to_string()
}
