//! Shared generators: pieces of LaTeX text.
use crate::Src;

pub const WORDS: &[&str] = &[
    "a", "x", "f", "1", "42", "ab", "xyz", "word", "=", "+", "-", "<", ">", "|", "!", "?", ":", ".", "`", "é", "αβ", "中文", "𝒜b",
    "a1b", "0.5", "==", "\u{301}", "…", "½",
];
pub const PUNCT: &[&str] = &[
    "{", "}", "[", "]", "(", ")", ",", "~", "/", "&", "^", "'", "\"", ";", "#", "*", "@", "_", "$", "$$",
];
pub const BLANK: &[&str] = &[
    " ", "\n", "  ", "\t", "\r\n", "\n\n", "\r", " \n ", "\u{a0}", "\u{3000}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}",
];
pub const COMMENTS: &[&str] = &["%\n", "% c\n", "%x{y}\\z\r\n", "%é%\n", "%%\r", "%"];
pub const CMDS: &[&str] = &[
    "\\alpha", "\\frac", "\\sqrt", "\\hat", "\\over", "\\limits", "\\displaystyle", "\\sum", "\\\\", "\\,", "\\;", "\\!", "\\{",
    "\\}", "\\|", "\\%", "\\$", "\\&", "\\_", "\\#", "\\ ", "\\", "\\left", "\\right", "\\text", "\\é", "\\1", "\\*", "\\@x",
    "\\foo@bar", "\\unknowncmd", "\\color", "\\textcolor", "\\substack", "\\operatorname*", "\\operatorname", "\\hat*", "\\section*",
    "\\(", "\\)", "\\[", "\\]", "\\label", "\\item", "\\~", "\\^", "\\'", "\\\"", "\\/", "\\-", "\\:", "\\>", "\\begin", "\\end",
    "\\middle", "\\big", "\\not", "\\bmod", "\\binom", "\\mathbb", "\\prime", "\\caption", "\\includegraphics", "\\tag", "\\iint",
    "\\rm", "\\textbf", "\\mitexrecurse", "\\hline", "\\centering", "\\section", "\\footnote", "\\colorbox",
];
pub const IFS: &[&str] = &[
    "\\iftrue", "\\iffalse", "\\else", "\\fi", "\\iftypst", "\\if", "\\ifx", "\\ifnum", "\\@ifstar", "\\ifmmode", "\\ifcase", "\\ifcat",
    "\\ifvoid", "\\ifhbox", "\\ifvbox", "\\ifhmode", "\\ifvmode", "\\ifinner", "\\ifdim", "\\ifeof", "\\fi@", "\\elsewhere",
];
pub const ENVS: &[&str] = &[
    "matrix", "aligned", "cases", "align*", "equation", "pmatrix", "itemize", "enumerate", "tabular", "figure", "table", "quote",
    "unknownenv", "f", "", "center", "array", "subarray", "a@b", "gather", "smallmatrix",
];

fn blanks(s: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..s.weighted(&[6, 2, 1]) {
        if s.chance(1, 3) {
            let c = s.pick(COMMENTS);
            o.push_str(c);
            if c == "%" {
                o.push('\n');
            }
        } else {
            o.push_str(s.pick(BLANK));
        }
    }
    o
}

pub fn begin_end(s: &mut Src, out: &mut String) {
    out.push_str(s.pick(&["\\begin", "\\end"]));
    out.push_str(&blanks(s));
    if s.chance(1, 12) {
        out.push_str(s.pick(&["x", "[", "\\foo", "*", ""]));
    }
    if !s.chance(1, 15) {
        out.push('{');
    }
    out.push_str(&blanks_rare(s));
    out.push_str(s.pick(ENVS));
    if s.chance(1, 12) {
        out.push_str(s.pick(&["1", "é", "**", "*x", "-", "{", "_"]));
    }
    out.push_str(&blanks(s));
    if !s.chance(1, 15) {
        out.push('}');
    }
}
fn blanks_rare(s: &mut Src) -> String {
    if s.chance(1, 10) {
        blanks(s)
    } else {
        String::new()
    }
}

/// One piece of arbitrary LaTeX-like text.
pub fn piece(s: &mut Src, out: &mut String, ifs: bool) {
    match s.weighted(&[10, 6, 6, 2, 7, if ifs { 3 } else { 0 }, 4, 2, 1]) {
        0 => out.push_str(s.pick(WORDS)),
        1 => out.push_str(s.pick(PUNCT)),
        2 => out.push_str(s.pick(BLANK)),
        3 => out.push_str(s.pick(COMMENTS)),
        4 => out.push_str(s.pick(CMDS)),
        5 => out.push_str(s.pick(IFS)),
        6 => begin_end(s, out),
        7 => {
            let b = s.range(0x21, 0x7e) as u8 as char;
            out.push(b);
        }
        _ => {
            let c = char::from_u32(s.below(0x11_0000) as u32).unwrap_or('ß');
            out.push(c);
        }
    }
}

/// Arbitrary text: usually short, sometimes longer than any internal buffer.
pub fn soup(s: &mut Src, ifs: bool) -> String {
    let n = match s.weighted(&[30, 12, 2]) {
        0 => s.range(0, 14),
        1 => s.range(15, 80),
        _ => s.range(200, 700),
    };
    let mut out = String::new();
    for _ in 0..n {
        piece(s, &mut out, ifs);
    }
    out
}
