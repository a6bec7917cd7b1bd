//! Reference tokenizer, written from the lexical rules (not from the code
//! generator's output): one linear scan, no lookahead buffers, no pages.
use mitex_lexer::{BraceKind::*, CommandName as C, IfCommandName as I, Token as T};

fn is_special(c: char) -> bool {
    c.is_whitespace() || "\\%{},$[]()~/_*@'\";&^#".contains(c)
}

/// `\if...` commands by name
pub fn if_kind(name: &str) -> Option<I> {
    Some(match name {
        "if" => I::If,
        "iftypst" => I::IfTypst,
        "iffalse" => I::IfFalse,
        "iftrue" => I::IfTrue,
        "ifcase" => I::IfCase,
        "ifnum" => I::IfNum,
        "ifcat" => I::IfCat,
        "ifx" => I::IfX,
        "ifvoid" => I::IfVoid,
        "ifhbox" => I::IfHBox,
        "ifvbox" => I::IfVBox,
        "ifhmode" => I::IfHMode,
        "ifmmode" => I::IfMMode,
        "ifvmode" => I::IfVMode,
        "ifinner" => I::IfInner,
        "ifdim" => I::IfDim,
        "ifeof" => I::IfEof,
        "@ifstar" => I::IfStar,
        _ => return None,
    })
}

/// Skips blanks and comments (with the line break that ends them).
fn skip_blank(s: &str, mut i: usize) -> usize {
    while let Some(c) = s[i..].chars().next() {
        if c.is_whitespace() {
            i += c.len_utf8();
        } else if c == '%' {
            while let Some(c) = s[i..].chars().next() {
                i += c.len_utf8();
                if c == '\n' || c == '\r' {
                    break;
                }
            }
        } else {
            break;
        }
    }
    i
}

fn name_end(s: &str, mut i: usize) -> usize {
    let b = s.as_bytes();
    while i < b.len() && (b[i].is_ascii_alphabetic() || b[i] == b'@') {
        i += 1;
    }
    i
}

/// Tokens of `s` with their texts. `known(name)` tells whether a starred command
/// name belongs to the specification.
pub fn tokens<'a>(s: &'a str, known: &dyn Fn(&str) -> bool) -> Vec<(T, &'a str)> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let rest = &s[i..];
        let c = rest.chars().next().unwrap();
        let one = &rest[..c.len_utf8()];
        let run = |f: &dyn Fn(char) -> bool| -> &'a str {
            let n = rest.find(|c: char| !f(c)).unwrap_or(rest.len());
            &rest[..n]
        };
        let single = |k: T| (k, one, one.len());
        let (kind, text, used): (T, &str, usize) = match c {
            '\r' | '\n' => {
                let t = run(&|c| c == '\r' || c == '\n');
                (T::LineBreak, t, t.len())
            }
            c if c.is_whitespace() => {
                let t = run(&|c| c.is_whitespace() && c != '\r' && c != '\n');
                (T::Whitespace, t, t.len())
            }
            '%' => {
                let t = run(&|c| c != '\r' && c != '\n');
                (T::LineComment, t, t.len())
            }
            '{' => single(T::Left(Curly)),
            '}' => single(T::Right(Curly)),
            '[' => single(T::Left(Bracket)),
            ']' => single(T::Right(Bracket)),
            '(' => single(T::Left(Paren)),
            ')' => single(T::Right(Paren)),
            ',' => single(T::Comma),
            '~' => single(T::Tilde),
            '/' => single(T::Slash),
            '&' => single(T::Ampersand),
            '^' => single(T::Caret),
            '\'' => single(T::Apostrophe),
            '"' => single(T::Ditto),
            ';' => single(T::Semicolon),
            '#' => single(T::Hash),
            '*' => single(T::Asterisk),
            '@' => single(T::AtSign),
            '_' => single(T::Underscore),
            '$' => {
                let n = if rest.starts_with("$$") { 2 } else { 1 };
                (T::Dollar, &rest[..n], n)
            }
            '\\' => {
                if rest.starts_with("\\\\") {
                    (T::NewLine, &rest[..2], 2)
                } else {
                    command(s, i, known)
                }
            }
            _ => {
                let t = run(&|c| !is_special(c));
                (T::Word, t, t.len())
            }
        };
        out.push((kind, text));
        i += used;
    }
    out
}

fn command<'a>(s: &'a str, start: usize, known: &dyn Fn(&str) -> bool) -> (T, &'a str, usize) {
    let at = start + 1;
    let cmd = |k: C, end: usize| (T::CommandName(k), &s[start..end], end - start);
    let Some(c) = s[at..].chars().next() else { return cmd(C::Generic, at) };
    if c.is_whitespace() {
        return cmd(C::Generic, at);
    }
    if !(c.is_ascii_alphabetic() || c == '@') {
        let k = match c {
            '(' | '[' => C::BeginMath,
            ')' | ']' => C::EndMath,
            _ => C::Generic,
        };
        return cmd(k, at + c.len_utf8());
    }
    let mut end = name_end(s, at);
    if s[end..].starts_with('*') && known(&s[at..end + 1]) {
        end += 1;
    }
    match &s[at..end] {
        "else" => cmd(C::Else, end),
        "fi" => cmd(C::EndIf, end),
        "left" => cmd(C::Left, end),
        "right" => cmd(C::Right, end),
        n @ ("begin" | "end") => {
            let begin = n == "begin";
            let bad = || cmd(if begin { C::ErrorBeginEnvironment } else { C::ErrorEndEnvironment }, end);
            let o = skip_blank(s, end);
            if !s[o..].starts_with('{') {
                return bad();
            }
            let n0 = o + 1;
            let mut n1 = name_end(s, n0);
            if s[n1..].starts_with('*') {
                n1 += 1;
            }
            let c = skip_blank(s, n1);
            if !s[c..].starts_with('}') {
                return bad();
            }
            let k = if begin { C::BeginEnvironment } else { C::EndEnvironment };
            (T::CommandName(k), &s[n0..n1], c + 1 - start)
        }
        n => match if_kind(n) {
            Some(k) => cmd(C::If(k), end),
            None => cmd(C::Generic, end),
        },
    }
}
