//! The Typst package as it is shipped: packages/mitex with the plugin compiled to
//! WebAssembly, run by the Typst compiler.
use mitex_spec::CommandSpec;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vk::catal::*;
use vk::doc::*;
use vk::tyrun::*;
use vk::*;

const CFG: Cfg = Cfg { len: 3, text: 2, ..MATH };

fn head() -> String {
    let dir = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    format!(
        "#import \"{dir}/target/package/lib.typ\": *\n#import \"/repo/packages/mitex/specs/mod.typ\": mitex-scope as own-scope\n#let out(v) = [#metadata(v)<x>]\n"
    )
}
fn ask(body: &str) -> Result<Vec<Value>, String> {
    let r = typst(&format!("{}{body}", head()))?;
    serde_json::from_str(&r).map_err(|e| format!("not JSON: {e}"))
}
// ------------------------------------------------------------------ inputs
/// As written in a Typst document.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Str,
    Raw,
    Block,
    Lang,
    /// ```tex with the text on lines of its own
    Lines,
    /// raw(..) called with the text, in a line or not
    Call(bool),
}
fn form(s: &mut Src, t: &str) -> Form {
    let f = s.of(&[Form::Str, Form::Str, Form::Raw, Form::Block, Form::Lang, Form::Lines, Form::Call(true), Form::Call(false)]);
    // (raw elements have rules of their own for blanks and lines; what is put
    // between the backticks has to be what is taken)
    f_ok(f, t)
}
fn f_ok(f: Form, t: &str) -> Form {
    let simple = !t.contains(|c: char| c == '`' || c.is_control() || (c.is_whitespace() && c != ' ')) && !t.is_empty() && t.trim() == t;
    match f {
        Form::Raw if simple => f,
        Form::Block | Form::Lang if simple => f,
        Form::Lines if !t.contains(|c: char| c == '`' || (c.is_control() && c != '\n') || "\u{85}\u{2028}\u{2029}".contains(c)) => f,
        Form::Call(_) => f,
        _ => Form::Str,
    }
}
fn arg(f: Form, t: &str) -> String {
    match f {
        Form::Str => lit(t),
        Form::Raw => format!("[`{t}`]"),
        Form::Block => format!("``` {t}```"),
        Form::Lang => format!("```tex {t}```"),
        Form::Lines => format!("```tex\n{t}\n```"),
        Form::Call(block) => format!("raw({}, block: {block})", lit(t)),
    }
}
fn formula(s: &mut Src) -> String {
    let v = Gen { s, cfg: CFG }.list(3);
    tex_of(&v)
}
fn document(s: &mut Src) -> String {
    let v = Gen { s, cfg: CFG }.tdoc(3, 6, true);
    let mut x = Tex::plain();
    x.texts(&v);
    x.out
}
fn prelude(s: &mut Src, t: &mut String) {
    if s.chance(1, 5) {
        t.insert_str(0, s.pick(&["\\newcommand{\\ab}[1]{x#1y}\\ab{z} ", "% comment\n", "\\iftrue a\\else b\\fi ", "é ", "\\newcommand{\\R}{\\mathbb{R}} \\R "]));
    }
}

/// mitex-convert says what the library says.
fn convert(s: &mut Src, o: &mut Obs) -> Res {
    let mut q = String::new();
    let mut want = vec![];
    let mut shown = vec![];
    for _ in 0..s.range(1, 12) {
        let text = s.chance(1, 2);
        let mut t = match s.weighted(&[6, 1, 1]) {
            0 if text => document(s),
            0 => formula(s),
            1 => vk::gen::soup(s, !text),
            _ => s.pick(&["", " ", "x", "\n", "\\", "a\\\\", "$", "%"]).to_string(),
        };
        prelude(s, &mut t);
        let f = form(s, &t);
        let how = s.below(3);
        shown.push(format!("{text} {f:?} {t}"));
        if dry() {
            continue;
        }
        let w = guarded(|| if text { mitex::convert_text(&t, None) } else { mitex::convert_math(&t, None) })?;
        // (what is refused stops the compiler: see `refused`)
        if let Ok(w) = w {
            let a = arg(f, &t);
            let n = if text { "text" } else { "math" };
            q.push_str(&match how {
                0 if !text => format!("#out(mitex-convert({a}))\n"),
                1 => format!("#out(str(mitex-wasm.convert_{n}(bytes({}), bytes(()))))\n", lit(&t)),
                _ => format!("#out(mitex-convert({a}, mode: {}))\n", lit(n)),
            });
            want.push((t, n, w));
        }
    }
    o.show(shown.join("\n----\n"));
    o.nontrivial = shown.iter().any(|t| t.len() > 30);
    if dry() {
        return Ok(());
    }
    let got = ask(&q)?;
    same("number of answers", &got.len(), &want.len())?;
    for (g, (t, n, w)) in got.iter().zip(&want) {
        same_str(&format!("the {n} conversion of {t:?}"), g.as_str().unwrap_or("?"), w)?;
    }
    Ok(())
}
/// What the library refuses, the package refuses with the same message.
fn refused(s: &mut Src, o: &mut Obs) -> Res {
    let text = s.chance(1, 2);
    let t = {
        let a = if text { document(s) } else { formula(s) };
        let bad = s.pick(&["\\nosuchcommand", "\\begin{nosuch}x\\end{nosuch}", "}", "\\end{matrix}", "\\nosuch{x}", "$", "\\frac{a}{\\nosuch}", "\\begin{matrix}a", "{"]);
        format!("{a} {bad} {}", formula(s))
    };
    let name = s.pick(&["mitex-convert", "mimath", "mi", "mitext", "mitex"]);
    o.show(format!("{name} {text} {t}"));
    if dry() {
        return Ok(());
    }
    let text = match name {
        "mimath" | "mi" => false,
        "mitext" => true,
        _ => text,
    };
    let w = guarded(|| if text { mitex::convert_text(&t, None) } else { mitex::convert_math(&t, None) })?;
    o.nontrivial = w.is_err();
    o.label(if w.is_err() { "refused" } else { "taken" });
    let mode = match name {
        "mitex-convert" | "mitex" => format!(", mode: {}", lit(if text { "text" } else { "math" })),
        _ => String::new(),
    };
    let call = format!("#out(repr({name}({}{mode})))\n", lit(&t));
    match (ask(&call), w) {
        (Err(e), Err(w)) => {
            // The compiler shows the first line of it
            let first = w.lines().next().unwrap_or("").trim();
            if e.contains(first) {
                Ok(())
            } else {
                Err(format!("{t:?} is refused with {e:?}, not with {w:?}"))
            }
        }
        (Ok(v), Err(w)) => Err(format!("{t:?} is converted to {v:?}, the library says {w:?}")),
        // (that it evaluates is C23)
        (Err(e), Ok(_)) if e.contains("plugin errored") || e.contains("plugin panicked") => Err(format!("{t:?} is refused with {e:?}, the library takes it")),
        (_, Ok(_)) => Ok(()),
    }
}
/// Conversion with a specification compiled in the document.
fn specs_in(s: &mut Src, o: &mut Obs) -> Res {
    let sp = vk::specs::any_spec(s);
    let js: BTreeMap<String, Value> = sp
        .items()
        .map(|(k, i)| (k.to_string(), serde_json::to_value(match i {
            mitex_spec::CommandSpecItem::Cmd(c) => mitex_spec::query::CommandSpecItem::Cmd(c.clone()),
            mitex_spec::CommandSpecItem::Env(e) => mitex_spec::query::CommandSpecItem::Env(e.clone()),
        })
        .unwrap_or(json!(null))))
        .collect();
    let js = json!({ "commands": js }).to_string();
    let mut ts = vec![];
    for _ in 0..s.range(1, 5) {
        let text = s.chance(1, 3);
        ts.push((text, vk::gen::soup(s, !text)));
    }
    o.show(format!("{js}\n{}", ts.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join("\n")));
    o.nontrivial = sp.items().count() > 2 && ts.iter().any(|t| t.1.len() > 10);
    if dry() {
        return Ok(());
    }
    let parsed: mitex_spec::JsonCommandSpec = serde_json::from_str(&js).map_err(|e| e.to_string())?;
    let native: CommandSpec = parsed.into();
    let mut q = format!("#let sp = mitex-wasm.compile_spec(bytes({}))\n#out(sp.len() > 0)\n", lit(&js));
    let mut want = vec![];
    for (text, t) in ts {
        let n = if text { "text" } else { "math" };
        let w = guarded(|| if text { mitex::convert_text(&t, Some(native.clone())) } else { mitex::convert_math(&t, Some(native.clone())) })?;
        if let Ok(w) = w {
            q.push_str(&format!("#out(mitex-convert({}, mode: \"{n}\", spec: sp))\n", lit(&t)));
            want.push((t, w));
        }
    }
    let got = ask(&q)?;
    same("number of answers", &got.len(), &(want.len() + 1))?;
    for (g, (t, w)) in got[1..].iter().zip(&want) {
        same_str(&format!("the conversion of {t:?}"), g.as_str().unwrap_or("?"), w)?;
    }
    Ok(())
}

// --------------------------------------------------------------- equations
const ARGS: &[&str] = &["numbering: \"(1)\"", "numbering: none", "supplement: [Eq]", "supplement: auto", "number-align: bottom", "block: true", "block: false", "numbering: \"I.a\"", "alt: \"formula\""];
fn names(keep: usize) -> Names<'static> {
    let c = usable();
    Names { syms: &c.syms, solid: &c.solid, cmds: &c.cmds, texts: &c.texts, left: &c.left, greedy: &c.greedy, infix: &c.infix, envs: &c.envs, keep, mend: true, used: vec![] }
}
/// What the functions for formulas make is the equation of the converted code.
fn equations(s: &mut Src, o: &mut Obs) -> Res {
    let mut q = String::new();
    let mut want = vec![];
    let mut shown = vec![];
    for _ in 0..s.range(1, 10) {
        let mut v = Gen { s, cfg: CFG }.list(3);
        let mut n = names(2);
        n.list(s, &mut v);
        let t = tex_of(&v).replace("{Vmatrix}", "{vmatrix}");
        let name = s.pick(&["mi", "mimath", "mitex", "mitex"]);
        let mode = name == "mitex" && s.chance(1, 2);
        let mut args: Vec<&str> = vec![];
        for _ in 0..s.weighted(&[4, 3, 2]) {
            let a = s.pick(ARGS);
            if !args.iter().any(|b| b.split(':').next() == a.split(':').next()) {
                args.push(a);
            }
        }
        let f = form(s, &t);
        shown.push(format!("{name} {f:?} {args:?} {t}"));
        if dry() {
            continue;
        }
        let Ok(code) = guarded(|| mitex::convert_math(&t, None))? else {
            return Err(format!("{t:?} is refused"));
        };
        let extra: String = args.iter().map(|a| format!(", {a}")).collect();
        let m = if mode { ", mode: \"math\"" } else { "" };
        q.push_str(&format!("#out(repr({name}({}{m}{extra})))\n", arg(f, &t)));
        let block = if args.iter().any(|a| a.starts_with("block")) { String::new() } else { format!(", block: {}", name != "mi") };
        q.push_str(&format!("#out(repr(math.equation(eval(\"$\" + {} + \"$\", scope: own-scope){block}{extra})))\n", lit(&code)));
        want.push(t);
    }
    o.show(shown.join("\n"));
    o.nontrivial = shown.len() > 2;
    if dry() {
        return Ok(());
    }
    let got = ask(&q)?;
    same("number of answers", &got.len(), &(2 * want.len()))?;
    for (p, t) in got.chunks(2).zip(&want) {
        same_str(&format!("the equation of {t:?}"), p[0].as_str().unwrap_or("?"), p[1].as_str().unwrap_or("!"))?;
    }
    Ok(())
}
/// Only texts are taken.
fn types(s: &mut Src, o: &mut Obs) -> Res {
    let v = s.pick(&["1", "none", "auto", "(1, 2)", "[a *b*]", "[#box[x]]", "true", "2pt", "(:)", "$x$", "[]", "bytes(\"x\")", "x => x"]);
    let f = s.pick(&["mi", "mimath", "mitex", "mitext", "mitex-convert"]);
    o.show(format!("{f}({v})"));
    o.nontrivial = true;
    if dry() {
        return Ok(());
    }
    match ask(&format!("#out(repr({f}({v})))")) {
        Ok(r) => Err(format!("{f}({v}) gives {r:?}")),
        Err(e) if e.contains("Unsupported type") => Ok(()),
        Err(e) => Err(format!("{f}({v}) stops with {e:?}, which does not name the type as the cause")),
    }
}

// -------------------------------------------------------------------- shown
/// Events of what Typst made of a text. (Blanks only count between characters.)
const EVENTS: &str = r##"
#let plain-of(t) = t.replace("–", "--").replace("—", "---").replace("…", "...").replace("−", "-").replace("\u{a0}", "~").replace("\u{ad}", "-?")
#let ev(c) = {
  if c == none { return () }
  if type(c) == str { return plain-of(c).clusters() }
  let f = repr(c.func())
  let l = c.at("label", default: none)
  let tail = if l == none { () } else { ("LABEL <" + str(l) + ">",) }
  let inner(c) = {
    let v = ev(c)
    while v.len() > 0 and v.last() in ("PAR", " ") { let _ = v.pop() }
    while v.len() > 0 and v.first() in ("PAR", " ") { let _ = v.remove(0) }
    v
  }
  let wrap(n) = (n + " [",) + inner(c.body) + ("END",)
  let r = if f == "sequence" { c.children.map(ev).flatten() }
  else if f == "styled" { ("STYLE [",) + inner(c.child) + ("END",) }
  else if f == "space" { (" ",) }
  else if f == "text" or f == "raw" { plain-of(c.text).clusters() }
  else if f == "symbol" { plain-of(c.text).clusters() }
  else if f == "smartquote" { (if c.at("double", default: true) { "\"" } else { "'" },) }
  else if f == "parbreak" { ("PAR",) }
  else if f == "linebreak" { ("BREAK",) }
  else if f == "heading" { wrap("heading " + str(c.at("level", default: 1))) }
  else if f == "item" { let e = c.func() == enum.item; (if e { "+ (" } else { "- (" },) + inner(c.body) + ("END",) }
  else if f == "equation" { (if c.at("block", default: false) { "FORMULA block" } else { "FORMULA inline" },) }
  else if f == "ref" { ("REF <" + str(c.target) + ">",) }
  else if f == "table" {
    let cols = c.columns
    let n = if type(cols) == int { cols } else { cols.len() }
    ("table " + str(n) + " " + repr(c.align) + " " + repr(c.stroke),) + c.children.map(k => {
      let g = repr(k.func())
      if g == "hline" { ("hline " + repr(k.stroke),) }
      else if g == "vline" { ("vline " + str(k.x) + " " + repr(k.stroke),) }
      else { ("CELL [",) + inner(k.body) + ("END",) }
    }).flatten()
  }
  else if f == "figure" {
    let cap = c.at("caption", default: none)
    ("figure",) + (if cap == none { () } else { ("CAPTION [",) + inner(cap.body) + ("END",) }) + ("BODY [",) + inner(c.body) + ("END",)
  }
  else if c.has("body") { wrap(f) }
  else { (f,) }
  r + tail
}
#let image(p, ..a) = rect()
#let show-text(t) = out(ev(mitext(t)))
"##;
/// The same events, of the document as it was meant.
fn meant(v: &[T], o: &mut Vec<String>) {
    for t in v {
        match t {
            T::Word(w) => o.extend(w.chars().map(String::from)),
            T::Punct(p, _) => {
                let p = p.strip_prefix('\\').unwrap_or(p);
                o.extend(p.chars().map(String::from));
            }
            T::Blank(b) => o.push(if b.matches('\n').count() > 1 { "PAR" } else { " " }.into()),
            T::Break => o.push("BREAK".into()),
            T::Cmd(n, args) => {
                let name = match *n {
                    "textbf" => "strong",
                    "textit" | "emph" => "emph",
                    "footnote" => "footnote",
                    "section" => "heading 1",
                    "subsection" => "heading 2",
                    "subsubsection" => "heading 3",
                    "textmd" | "textnormal" | "text" => "",
                    _ => "STYLE",
                };
                for a in args {
                    if name.is_empty() {
                        meant(a, o);
                    } else {
                        o.push(format!("{name} ["));
                        meant_in(a, o);
                        o.push("END".into());
                    }
                }
            }
            T::Group(v) => meant(v, o),
            T::Inline(..) => o.push("FORMULA inline".into()),
            // (an empty one cannot be told from one in the line)
            T::Display(_, m) if m.is_empty() => o.push("FORMULA inline".into()),
            T::Display(..) => o.push("FORMULA block".into()),
            T::EnvMath(_, l) => {
                o.push("FORMULA block".into());
                if let Some(l) = l {
                    o.push(format!("LABEL <{l}>"));
                }
            }
            T::Quote(_, v) => {
                o.push("quote [".into());
                meant_in(v, o);
                o.push("END".into());
            }
            T::List(en, items) => {
                for i in items {
                    o.push(if *en { "+ (" } else { "- (" }.to_string());
                    meant_in(i, o);
                    o.push("END".into());
                }
            }
            T::Color(n, model, _, v) => {
                let _ = model;
                o.push(if *n == "colorbox" { "box [" } else { "STYLE [" }.into());
                meant_in(v, o);
                o.push("END".into());
            }
            T::Table(t) => meant_table(t, o),
            T::Figure(f) => {
                o.push("figure".into());
                if let Some(c) = &f.caption {
                    o.push("CAPTION [".into());
                    meant_in(c, o);
                    o.push("END".into());
                }
                o.push("BODY [".into());
                meant_in(&f.body, o);
                o.push("END".into());
                if let Some(l) = &f.label {
                    o.push(format!("LABEL <{l}>"));
                }
            }
            T::Raw(r) => o.push(r.clone()),
            T::Label(_) | T::Image(..) | T::ColorRest(..) => o.push("?".into()),
        }
    }
}
fn meant_in(v: &[T], o: &mut Vec<String>) {
    let mut w = vec![];
    meant(v, &mut w);
    ends(&mut w);
    o.append(&mut w);
}
fn ends(w: &mut Vec<String>) {
    while w.last().is_some_and(|x| x == "PAR" || x == " ") {
        w.pop();
    }
    while w.first().is_some_and(|x| x == "PAR" || x == " ") {
        w.remove(0);
    }
}
fn meant_table(t: &Table, o: &mut Vec<String>) {
    let letters: Vec<char> = t.spec.chars().filter(|c| c.is_alphabetic()).collect();
    let a: Vec<&str> = letters.iter().map(|c| if *c == 'l' { "left" } else if *c == 'c' { "center" } else { "right" }).collect();
    let a = if a.len() == 1 { format!("({},)", a[0]) } else { format!("({})", a.join(", ")) };
    o.push(format!("table {} {a} none", letters.len()));
    let mut i = 0;
    for c in t.spec.chars() {
        if c == '|' {
            o.push(format!("vline {i} 0.5pt"));
        } else if c.is_alphabetic() {
            i += 1;
        }
    }
    let rules = |o: &mut Vec<String>, r: &[&str]| {
        for r in r {
            let (_, w) = RULES.iter().find(|x| x.0 == *r).unwrap();
            o.push(format!("hline {}", w.replace(".5pt", "0.5pt")));
        }
    };
    for (k, (r, cells)) in t.rows.iter().enumerate() {
        rules(o, r);
        let last = k + 1 == t.rows.len() && t.end.is_none();
        for (j, c) in cells.iter().enumerate() {
            if last && j + 1 == cells.len() && c.is_empty() {
                break;
            }
            o.push("CELL [".into());
            meant_in(c, o);
            o.push("END".into());
        }
        for _ in cells.len()..if last { 0 } else { letters.len() } {
            o.push("CELL [".into());
            o.push("END".into());
        }
    }
    if let Some(r) = &t.end {
        rules(o, r);
    }
}
/// Blanks only where they part characters.
fn tidy(mut v: Vec<String>) -> Vec<String> {
    // the body of a figure: what \caption and \label leave behind parts lines
    let mut open: Vec<bool> = vec![];
    for x in &mut v {
        if x.ends_with(" [") || x.ends_with(" (") {
            open.push(x == "BODY [" || open.last() == Some(&true));
        } else if x == "END" {
            open.pop();
        } else if (x == "PAR" || x == " ") && open.last() == Some(&true) {
            x.clear();
        }
    }
    v.retain(|x| !x.is_empty());
    let ch = |x: Option<&String>| x.is_some_and(|x| x.chars().count() == 1 && x != " ");
    let mut o: Vec<String> = vec![];
    for (i, x) in v.iter().enumerate() {
        if x == " " && (!ch(o.last()) || !ch(v[i + 1..].iter().find(|x| *x != " "))) {
            continue;
        }
        // (items stand apart or not: the converter keeps the lines of the source)
        let list = |x: Option<&String>| x.is_some_and(|x| ["PAR", "END", "- (", "+ ("].contains(&x.as_str()));
        if x == "PAR" && (list(o.last()) || list(v[i + 1..].iter().find(|x| *x != " "))) {
            continue;
        }
        o.push(x.clone());
    }
    merge(o)
}
/// Styles of the same contents are one.
fn merge(v: Vec<String>) -> Vec<String> {
    let mut at = vec![];
    let mut close = vec![0; v.len()];
    for (i, x) in v.iter().enumerate() {
        if x.ends_with(" [") || x.ends_with(" (") {
            at.push(i);
        } else if x == "END" {
            if let Some(k) = at.pop() {
                close[k] = i;
            }
        }
    }
    let mut drop = vec![false; v.len()];
    for i in 1..v.len() {
        if v[i] == "STYLE [" && v[i - 1] == "STYLE [" && close[i] + 1 == close[i - 1] {
            drop[i] = true;
            drop[close[i]] = true;
        }
    }
    v.into_iter().zip(drop).filter(|x| !x.1).map(|x| x.0).collect()
}
fn joined(v: &[String]) -> String {
    let mut o = String::new();
    for x in v {
        if x.chars().count() == 1 {
            o.push_str(x);
        } else {
            o.push_str(&format!("\n{x}\n"));
        }
    }
    o.replace("\n\n", "\n")
}
fn shown(s: &mut Src, o: &mut Obs) -> Res {
    let mut q = EVENTS.to_string();
    let mut want = vec![];
    let mut all = vec![];
    for _ in 0..s.range(1, 10) {
        let mut g = Gen { s, cfg: CFG };
        let mut v = match g.s.below(6) {
            0 => vec![T::Table(g.table(2))],
            1 => vec![T::Figure(g.figure(2))],
            2 => vec![g.tlist(2)],
            _ => no_prime(trim(g.tdoc(3, 6, true))),
        };
        names(8).texts(s, &mut v);
        no_images(&mut v);
        let mut x = Tex::plain();
        x.texts(&v);
        // (known not to evaluate: C23)
        x.out = x.out.replace("{Vmatrix}", "{vmatrix}");
        all.push(x.out.clone());
        let mut w = vec![];
        meant_in(&v, &mut w);
        q.push_str(&format!("#show-text({})\n", lit(&x.out)));
        want.push((x.out, joined(&tidy(w))));
    }
    o.show(all.join("\n----\n"));
    o.nontrivial = all.iter().any(|t| t.len() > 30);
    if dry() {
        return Ok(());
    }
    let got = ask(&q)?;
    same("number of answers", &got.len(), &want.len())?;
    for (g, (t, w)) in got.iter().zip(&want) {
        let mut v: Vec<String> = g.as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("?").to_string()).collect();
        ends(&mut v);
        same_str(&format!("what is shown of {t:?}"), &joined(&tidy(v)), w)?;
    }
    Ok(())
}
/// Files are looked up beside the package: images are left out.
fn no_images(v: &mut Vec<T>) {
    for t in v {
        if let T::Image(..) = t {
            *t = T::Word("picture".into());
        }
        if let T::Figure(f) = t {
            no_images(&mut f.body);
        }
    }
}

// --------------------------------------------------------------- references
/// Labels stand at what they were given to, and references find them.
fn refs(s: &mut Src, o: &mut Obs) -> Res {
    let mut q = format!("#set heading(numbering: \"1.\")\n#set math.equation(numbering: \"(1)\")\n{EVENTS}");
    let mut want: Vec<(String, String, String)> = vec![];
    let mut all = vec![];
    let mut used = 0;
    for k in 0..s.range(1, 4) {
        let n = s.range(1, 4);
        let names: Vec<String> = (0..n).map(|i| format!("{}{k}{}", s.pick(&["eq:", "fig:", "l-", "x.", "s_", "a"]), (b'a' + i as u8) as char)).collect();
        let mut tex = String::new();
        let mut ev: Vec<String> = vec![];
        let refer = |s: &mut Src, tex: &mut String, ev: &mut Vec<String>| {
            let r = &names[s.below(n)];
            tex.push_str(&format!("see \\{}{{{}}}{}", s.pick(&["ref", "eqref"]), r, s.pick(&[" ", ", ", "\n", "\n\n", " and "])));
            ev.push(format!("REF <{r}>"));
        };
        for l in &names {
            if s.chance(1, 2) {
                used += 1;
                refer(s, &mut tex, &mut ev);
            }
            let lab = format!("\\label{{{}{l}{}}}", s.pick(&["", " "]), s.pick(&["", " "]));
            let word = s.pick(&["x", "a b", "x^2"]);
            let (t, kind) = match s.below(6) {
                0 => (format!("\\begin{{equation}}{word}{lab}\\end{{equation}}"), "equation"),
                1 => (format!("\\begin{{align}}{lab}{word}&=y\\end{{align}}"), "equation"),
                2 => (format!("\\begin{{figure}}\n{word}z\\caption{{C {word}}}\n{lab}\\end{{figure}}").replace('^', ""), "figure"),
                3 => (format!("\\begin{{table}}{lab}\\begin{{tabular}}{{cc}}a&b\\end{{tabular}}\\end{{table}}"), "figure"),
                4 => (format!("\\section{{T a}}{lab}\n"), "heading"),
                _ => (format!("\\subsection{{T}} {lab}\n"), "heading"),
            };
            tex.push_str(&t);
            tex.push_str(s.pick(&["\n\n", "\n", " "]));
            ev.push(format!("LABEL <{l}>"));
            q.push_str(&format!("#context out(query(label(\"{l}\")).map(e => repr(e.func())))\n"));
            want.push((format!("[{kind:?}]"), l.clone(), "marks".into()));
        }
        used += 1;
        refer(s, &mut tex, &mut ev);
        q.push_str(&format!("#mitext({})\n#out(ev(mitext({})).filter(e => e.starts-with(\"REF \") or e.starts-with(\"LABEL \")).join(\" \"))\n", lit(&tex), lit(&tex)));
        want.push((format!("{:?}", ev.join(" ")), tex.clone(), "has the marks".into()));
        all.push(tex);
    }
    o.show(all.join("\n----\n"));
    o.nontrivial = used > 2;
    if dry() {
        return Ok(());
    }
    let got = ask(&q)?;
    same("number of answers", &got.len(), &want.len())?;
    for (g, (w, what, how)) in got.iter().zip(&want) {
        same_str(&format!("what {what:?} {how}"), &g.to_string(), w)?;
    }
    Ok(())
}
/// A reference to a label that is not there is an error.
fn dangling(s: &mut Src, o: &mut Obs) -> Res {
    let l = s.pick(&["eq:a", "b", "l-1", "x.y"]);
    let have = s.chance(1, 3);
    let t = format!("{}{}see \\{}{{{l}}} x", s.pick(&["", "word ", "\\textbf{a} and $x$", "\\begin{itemize}\\item a\\end{itemize}"]), if have { format!("\n\n\\section{{A}}\\label{{{l}x}} \n") } else { "\n\n".into() }, s.pick(&["ref", "eqref"]));
    o.show(t.clone());
    if dry() || t.contains(&format!("label{{{l}}}")) {
        return Ok(());
    }
    o.nontrivial = true;
    match ask(&format!("#set heading(numbering: \"1.\")\n#mitext({})\n#out(1)", lit(&t))) {
        Err(e) if e.contains("does not exist") => Ok(()),
        Err(e) => Err(format!("{t:?} stops with {e}")),
        Ok(_) => Err(format!("{t:?} refers to nothing, and nobody says so")),
    }
}

fn main() {
    main_for(vec![Property {
        id: "C26",
        rule: "a batch with a document of more than thirty characters, more than two equations, or a refused input",
        assumptions: &[
            "trusts the installed Typst compiler and its WebAssembly runtime",
            "the plugin is compiled with the feature for Typst, by the nightly compiler, with a standard library built from its source and the protocol crate replaced by one of the harness",
            "images are left out: they are looked up beside the package",
        ],
        subs: vec![
            sub("convert", 500, 20_000, convert),
            sub("refused", 200, 5_000, refused),
            sub("specs", 300, 10_000, specs_in),
            sub("equations", 400, 20_000, equations),
            sub("types", 65, 200, types),
            sub("shown", 800, 40_000, shown),
            sub("refs", 400, 20_000, refs),
            sub("dangling", 60, 1_000, dangling),
        ],
    }]);
}
