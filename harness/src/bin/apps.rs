//! The command line tool and the plugin interface.
use mitex_spec::CommandSpec;
use mitex_spec_gen::DEFAULT_SPEC;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use vk::doc::*;
use vk::*;

#[path = "/repo/crates/mitex-wasm/src/lib.rs"]
#[allow(unused)]
mod wasm;

// ------------------------------------------------------------------- texts
/// A document: mostly fine, sometimes broken.
fn document(s: &mut Src) -> (String, bool) {
    let kind = s.weighted(&[6, 2, 2, 1]);
    let mut t = match kind {
        0 => {
            let v = Gen { s, cfg: Cfg { len: 3, text: 2, ..MATH } }.tdoc(3, 8, true);
            let mut x = Tex::plain();
            x.texts(&v);
            x.out
        }
        1 => {
            let mut g = Gen { s, cfg: Cfg { len: 3, text: 2, ..MATH } };
            let v = vec![T::Figure(g.figure(2)), T::Table(g.table(2))];
            let mut x = Tex::plain();
            x.texts(&v);
            x.out
        }
        2 => gen::soup(s, false),
        _ => String::new(),
    };
    // files of more than a buffer
    if kind != 2 && s.chance(1, 100) {
        let top = s.of(&[10_000, 70_000, 200_000]);
        let size = s.range(1_000, top);
        t = format!("{}\n\n", if t.is_empty() { "é" } else { &t }).repeat(size / (t.len() + 2));
    }
    if s.chance(1, 4) {
        t.insert_str(0, s.pick(&["\\newcommand{\\ab}[1]{x#1y}\\ab{z} ", "% comment\n", "\n\n", "é ", "\\iftrue a\\else b\\fi "]));
    }
    if s.chance(1, 6) {
        t.push_str(s.pick(&["\\nosuchcommand", " }", "$", "\\begin{nosuch}\\end{nosuch}", "\\renewcommand{\\nosuch}{a}", "\\item x"]));
    }
    (t, kind < 2)
}

// --------------------------------------------------------------------- C21
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("vk-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Scratch(d)
}
fn snapshot(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(root: &Path, d: &Path, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(root, &p, m);
            } else {
                m.insert(p.strip_prefix(root).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap());
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(d, d, &mut m);
    m
}
const INPUTS: &[&str] = &["main.tex", "a b.tex", "noext", "x.y.tex", "été.tex", "sub/in.tex", "./dot.tex", "main.TEX", "sub/../up.tex", ".hidden", "long-name-with-dashes.latex", "x.typ.tex", "tex"];
const OUTPUTS: &[&str] = &["out.typ", "o", "sub/out.typ", "a b.out", "main.ast.txt", "übung.typ", "main.typ", "x.tex.bak"];
const DIRS: &[&str] = &["", "./", "sub/", "sub.tex/", "sub.tex.d/", "sub/../", "a b/", ".x/", "sub.typ/", "sub/./"];
const PIECES: &[&str] = &["a", ".tex", ".typ", ".", "main", " ", "é", "_", "tex", "TEX", ".t", "1"];
fn input_name(s: &mut Src) -> String {
    if s.chance(1, 2) {
        return s.pick(INPUTS).to_string();
    }
    let name: String = (0..s.range(1, 4)).map(|_| s.pick(PIECES)).collect();
    let name = name.trim();
    // (the standard library has no answer for the stem of `..tex`)
    if name.is_empty() || name == "." || name.starts_with("..") {
        return "main.tex".into();
    }
    format!("{}{name}", s.pick(DIRS))
}
/// The documented default: the name with the .typ extension.
fn default_output(input: &str) -> String {
    let (dir, name) = input.rsplit_once('/').map_or(("", input), |(d, n)| (&input[..d.len() + 1], n));
    let stem = match name.rfind('.') {
        Some(i) if i > 0 => &name[..i],
        _ => name,
    };
    format!("{dir}{stem}.typ")
}
fn normal(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.join("/")
}
/// The names that a document may use: the aliases that are identifiers.
fn bound_names() -> BTreeSet<String> {
    DEFAULT_SPEC
        .items()
        .filter_map(|(_, i)| match i {
            mitex_spec::CommandSpecItem::Cmd(c) => c.alias.clone(),
            mitex_spec::CommandSpecItem::Env(e) => e.alias.clone(),
        })
        .filter(|a| !a.is_empty() && a.chars().all(|c| c.is_ascii_alphanumeric()))
        .filter(|a| !["and", "or", "in", "not"].contains(&a.as_str()))
        .collect()
}
fn prelude(head: &str) -> Res {
    let root = typst_syntax::parse(head);
    if root.erroneous() {
        return Err(format!("the lines before the document are no valid Typst: {}", cut(head, 300)));
    }
    let mut got = BTreeSet::new();
    let mut import = false;
    for l in head.lines().filter(|l| !l.trim().is_empty()) {
        if l.starts_with("#import \"@preview/mitex:") && l.ends_with(": *") && got.is_empty() {
            import = true;
            continue;
        }
        let Some((n, v)) = l.strip_prefix("#let ").and_then(|l| l.split_once('=')) else {
            return Err(format!("unexpected line before the document: {l}"));
        };
        let n = n.trim().to_string();
        same("the value of a name", &v.trim().trim_end_matches(';').to_string(), &format!("mitex-scope.at(\"{n}\", default: none)"))?;
        if !got.insert(n.clone()) {
            return Err(format!("{n} is defined twice"));
        }
    }
    if !import {
        return Err("the package is not imported first".into());
    }
    let want = bound_names();
    if got != want {
        let d: Vec<_> = got.symmetric_difference(&want).collect();
        return Err(format!("the names defined before the document differ from the aliases: {d:?}"));
    }
    Ok(())
}
fn cli(s: &mut Src, o: &mut Obs) -> Res {
    let (text, good) = document(s);
    let utf8 = !s.chance(1, 25);
    let mut bytes = text.clone().into_bytes();
    if !utf8 {
        let at = s.below(bytes.len() + 1);
        bytes.insert(at, s.of(&[0xffu8, 0x80, 0xc3]));
    }
    // an inserted byte may complete or start a character by chance
    let utf8 = String::from_utf8(bytes.clone()).is_ok();
    let text = if utf8 { String::from_utf8(bytes.clone()).unwrap() } else { text };
    let input = input_name(s);
    let exists = !s.chance(1, 25);
    let mut output = s.chance(1, 2).then(|| s.pick(OUTPUTS).to_string());
    let lost_dir = s.chance(1, 30);
    if lost_dir {
        output = Some("nodir/out.typ".into());
    }
    let stage = s.of(&[None, None, None, Some("document"), Some("syntax")]);
    let misuse = s.chance(1, 12).then(|| s.below(4));
    let mut args: Vec<String> = vec![s.pick(&["compile", "compile", "c"]).into()];
    let opt_stage = stage.map(|x| if s.chance(1, 2) { vec!["--stage".to_string(), x.to_string()] } else { vec![format!("--stage={x}")] });
    let work = s.chance(1, 6).then(|| vec!["-w".to_string(), ".".to_string()]);
    let mut opts: Vec<Vec<String>> = opt_stage.into_iter().chain(work).collect();
    if s.chance(1, 2) {
        opts.reverse();
    }
    match misuse {
        Some(0) => {
            // too many files
            args.extend(opts.concat());
            args.extend([input.clone(), "o1.typ".into(), "o2.typ".into()]);
        }
        Some(1) => {
            // named and positional
            args.extend(opts.concat());
            args.extend(["-o".into(), "o1.typ".into(), input.clone()]);
        }
        Some(2) => {
            // no input
            args.extend(opts.concat());
            if s.chance(1, 2) {
                args.extend(["-o".into(), "o1.typ".into()]);
            }
        }
        Some(_) => {
            args.extend(["--stage".into(), s.pick(&["", "Syntax", "ast", "documents"]).into(), input.clone()]);
        }
        None => {
            if s.chance(1, 2) {
                args.extend(opts.concat());
                args.push(input.clone());
                args.extend(output.clone());
            } else {
                opts.push(vec![s.pick(&["-i", "--input"]).into(), input.clone()]);
                if let Some(x) = &output {
                    opts.push(vec![s.pick(&["-o", "--output"]).into(), x.clone()]);
                }
                let k = s.below(opts.len());
                opts.rotate_left(k);
                args.extend(opts.concat());
            }
        }
    }
    let target = normal(&output.clone().unwrap_or_else(|| default_output(&input)));
    let old = s.chance(1, 2).then(|| s.pick(&["", "old\n", "a much longer text than what will be written, or so one should think \u{e9}\n"]));
    o.show(format!("{args:?} on {}{}{}", cut(&format!("{:?}", String::from_utf8_lossy(&bytes)), 1500), if exists { "" } else { " (no such file)" }, if old.is_some() { ", output exists" } else { "" }));
    o.nontrivial = good && text.len() > 10 && misuse.is_none();
    o.label_if(misuse.is_some(), "misuse");
    o.label_if(!utf8, "not UTF-8");
    o.label_if(stage == Some("syntax"), "syntax");
    if dry() {
        return Ok(());
    }
    if normal(&input) == target {
        return Ok(());
    }
    let d = scratch();
    std::fs::create_dir_all(d.0.join("sub")).unwrap();
    for x in DIRS {
        std::fs::create_dir_all(d.0.join(x)).unwrap();
    }
    if exists {
        std::fs::write(d.0.join(&input), &bytes).unwrap();
    }
    std::fs::write(d.0.join("bystander.typ"), "bystander").unwrap();
    if let (Some(old), false) = (old, lost_dir) {
        std::fs::write(d.0.join(&target), old).unwrap();
    }
    let before = snapshot(&d.0);
    let bin = std::env::current_exe().unwrap().parent().unwrap().join("mitexcli");
    let out = Command::new(bin).args(&args).current_dir(&d.0).output().map_err(|e| e.to_string())?;
    let after = snapshot(&d.0);
    let err = String::from_utf8_lossy(&out.stderr).into_owned();

    let want: Result<String, String> = if misuse.is_some() || !exists || !utf8 || lost_dir {
        Err(String::new())
    } else if stage == Some("syntax") {
        Ok(format!("{:#?}", mitex_parser::parse(&text, DEFAULT_SPEC.clone())))
    } else {
        guarded(|| mitex::convert_text(&text, Some(DEFAULT_SPEC.clone())))?
    };
    match want {
        Err(msg) => {
            o.label("fails");
            if out.status.success() {
                return Err("it ends with success although it has to fail".into());
            }
            if out.status.code().is_none() {
                return Err(format!("it dies: {}", out.status));
            }
            if err.trim().is_empty() {
                return Err("it fails without a message".into());
            }
            if !err.contains(msg.trim()) {
                return Err(format!("the message does not give the error {msg:?}: {}", cut(&err, 500)));
            }
            if before != after {
                return Err(format!("it fails but changes files: {}", changed(&before, &after)));
            }
        }
        Ok(want) => {
            if !out.status.success() {
                return Err(format!("it fails ({}): {}", out.status, cut(&err, 500)));
            }
            let mut expected = before.clone();
            let Some(got) = after.get(&target) else {
                return Err(format!("it writes no {target}: {}", changed(&before, &after)));
            };
            expected.insert(target.clone(), got.clone());
            if expected != after {
                return Err(format!("it changes files other than {target}: {}", changed(&expected, &after)));
            }
            let got = String::from_utf8(got.clone()).map_err(|_| "the output is not UTF-8")?;
            let Some(head) = got.strip_suffix(want.as_str()) else {
                return Err(format!("the output does not end with the conversion\nexpected: {}\ngot: {}", cut(&want, 800), cut(&got[got.len().saturating_sub(want.len() + 50).min(got.len())..].to_string(), 800)));
            };
            if !head.ends_with('\n') {
                return Err(format!("the conversion does not start on a line of its own, after {:?}", head.lines().last()));
            }
            prelude(head)?;
        }
    }
    Ok(())
}
fn changed(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> String {
    let mut v = vec![];
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        match (a.get(k), b.get(k)) {
            (Some(_), None) => v.push(format!("{k} is gone")),
            (None, Some(_)) => v.push(format!("{k} is new")),
            (Some(x), Some(y)) if x != y => v.push(format!("{k} has changed")),
            _ => {}
        }
    }
    v.join(", ")
}
/// An input whose default output would be itself.
fn cli_typ(s: &mut Src, o: &mut Obs) -> Res {
    let (text, _) = document(s);
    let name = s.pick(&["main.typ", "sub/x.typ", "a.b.typ"]);
    let named = s.chance(1, 2);
    o.show(format!("{name} {text:?}"));
    o.nontrivial = text.len() > 10;
    if dry() {
        return Ok(());
    }
    let d = scratch();
    std::fs::create_dir_all(d.0.join("sub")).unwrap();
    std::fs::write(d.0.join(name), &text).unwrap();
    let before = snapshot(&d.0);
    let bin = std::env::current_exe().unwrap().parent().unwrap().join("mitexcli");
    let args: &[&str] = if named { &["compile", "-i", name] } else { &["compile", name] };
    let out = Command::new(bin).args(args).current_dir(&d.0).output().map_err(|e| e.to_string())?;
    let after = snapshot(&d.0);
    if after.get(name) != before.get(name) {
        return Err("the input is overwritten".into());
    }
    if after == before && out.status.success() {
        return Err("it ends with success but writes nothing".into());
    }
    Ok(())
}

/// The other commands: manuals, completion scripts, versions and misuse.
fn tool(s: &mut Src, o: &mut Obs) -> Res {
    const SHELLS: &[&str] = &["bash", "zsh", "fish", "elvish", "powershell"];
    const SUBS: &[&str] = &["compile", "completion", "manual", "spec"];
    let kind = s.below(4);
    let dest = s.pick(&["man", "man/deep/er", "./man", "a b", "sub", "sub/../man", "é", "file", "file/man", "taken"]);
    let pre: Vec<&str> = ["mitex-cli.1", "mitex-cli-spec.1", "other.1", "x.txt"].into_iter().filter(|_| s.chance(1, 3)).collect();
    let shell = s.pick(SHELLS);
    let wrong: &[&str] = s.of(&[&["manual"][..], &["completion"], &["completion", "csh"], &["spec"], &["spec", "make"], &["nosuch"], &["compile"], &["--nosuch"], &["--VV", "long"], &["-V", "--VV", "json"], &["manual", "man", "more"], &[]]);
    let args: Vec<&str> = match kind {
        0 => vec!["manual", dest],
        1 => vec!["completion", shell],
        2 => vec!["--VV", "json"],
        _ => wrong.to_vec(),
    };
    o.show(format!("{args:?}{}", if kind == 0 { format!(", before: {pre:?}") } else { String::new() }));
    o.nontrivial = kind < 3;
    if dry() {
        return Ok(());
    }
    let d = scratch();
    std::fs::create_dir_all(d.0.join("sub")).unwrap();
    std::fs::create_dir_all(d.0.join("taken/mitex-cli.1")).unwrap();
    std::fs::write(d.0.join("file"), "a file").unwrap();
    let blocked = dest.starts_with("file") || dest == "taken";
    if kind == 0 && !blocked {
        std::fs::create_dir_all(d.0.join(dest)).unwrap();
        for p in &pre {
            std::fs::write(d.0.join(dest).join(p), "old").unwrap();
        }
        if pre.is_empty() && dest != "sub" {
            std::fs::remove_dir(d.0.join(dest)).unwrap();
        }
    }
    let before = snapshot(&d.0);
    let bin = std::env::current_exe().unwrap().parent().unwrap().join("mitexcli");
    let run = |args: &[&str]| -> Result<(bool, String, String), String> {
        let out = Command::new(&bin).args(args).current_dir(&d.0).output().map_err(|e| e.to_string())?;
        if out.status.code().is_none_or(|c| c == 101) {
            return Err(format!("{args:?} dies: {} {}", out.status, cut(&String::from_utf8_lossy(&out.stderr), 400)));
        }
        Ok((out.status.success(), String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned()))
    };
    let (ok, out, err) = run(&args)?;
    let after = snapshot(&d.0);
    if kind == 3 || kind == 0 && blocked {
        o.label("fails");
        if ok {
            return Err("it ends with success although it has to fail".into());
        }
        if err.trim().is_empty() {
            return Err("it fails without a message".into());
        }
        if before != after {
            return Err(format!("it fails but changes files: {}", changed(&before, &after)));
        }
        return Ok(());
    }
    if !ok {
        return Err(format!("it fails: {}", cut(&err, 500)));
    }
    // the options a command says that it has
    let options = |sub: &str| -> Result<Vec<String>, String> {
        let help = run(&[sub, "--help"])?.1;
        let mut v: Vec<String> = help.split_whitespace().filter(|w| w.starts_with("--") && w.len() > 3).map(|w| w.trim_end_matches([',', '.']).to_string()).collect();
        v.sort();
        v.dedup();
        Ok(v)
    };
    match kind {
        0 => {
            let dir = normal(dest);
            let mut want = before.clone();
            let pages = std::iter::once("mitex-cli.1".to_string()).chain(SUBS.iter().map(|s| format!("mitex-cli-{s}.1")));
            for p in pages {
                let p = format!("{dir}/{p}");
                let Some(page) = after.get(&p) else {
                    return Err(format!("there is no page {p}: {}", changed(&before, &after)));
                };
                want.insert(p, page.clone());
            }
            if want != after {
                return Err(format!("it changes other files: {}", changed(&want, &after)));
            }
            let page = |n: &str| String::from_utf8_lossy(&after[&format!("{dir}/mitex-cli{n}.1")]).replace('\\', "");
            for x in SUBS {
                let p = page(&format!("-{x}"));
                for opt in options(x)? {
                    if !p.contains(&opt) {
                        return Err(format!("the page of {x} does not have its option {opt}"));
                    }
                }
                if !page("").contains(&format!("-{x}(1)")) {
                    return Err(format!("the main page does not name {x}"));
                }
            }
        }
        1 => {
            for x in SUBS {
                if !out.contains(x) {
                    return Err(format!("the script for {shell} does not know {x}"));
                }
                for opt in options(x)? {
                    if !out.contains(opt.trim_start_matches('-')) {
                        return Err(format!("the script for {shell} does not know the option {opt} of {x}"));
                    }
                }
            }
            same("files", &after, &before)?;
        }
        _ => {
            let j: serde_json::Value = serde_json::from_str(&out).map_err(|e| format!("the version is no JSON: {e}"))?;
            let plain = run(&["--VV", "json-plain"])?.1;
            same("the plain form", &serde_json::from_str(&plain).map_err(|e| format!("the plain version is no JSON: {e}"))?, &j)?;
            same("lines of the plain form", &plain.trim_end().lines().count(), &1)?;
            let short = run(&["--VV", "short"])?.1;
            same("the short form", &run(&["-V"])?.1, &short)?;
            same("the short form by its long name", &run(&["--version"])?.1, &short)?;
            let text = |k: &str| j[k].as_str().unwrap_or("-none-").to_string();
            let head = format!("{} version {}", text("name"), text("version"));
            if short.lines().next() != Some(head.as_str()) {
                return Err(format!("the short version is {short:?}, not {head:?}"));
            }
            let full = run(&["--VV", "full"])?.1;
            if !full.starts_with(short.trim_end()) {
                return Err("the full version does not start with the short one".into());
            }
            for (k, v) in j.as_object().into_iter().flatten() {
                if let Some(v) = v.as_str() {
                    if !full.contains(v) {
                        return Err(format!("the full version lacks {k} {v}"));
                    }
                }
            }
            let f: Vec<String> = j["features"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect();
            same("the features", &run(&["--VV", "features"])?.1.trim_end().to_string(), &f.join(","))?;
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- C22
/// A specification for the plugin: as JSON, and as the library's own.
fn json_spec(s: &mut Src) -> (String, CommandSpec) {
    use mitex_spec::preludes::command::*;
    let mut j = serde_json::Map::new();
    let mut b = SpecBuilder::default();
    const N: &[&str] = &["alpha", "frac", "sqrt", "foo", "bar", "text", "textbf", "over", "hat", "limits", "displaystyle", "foo*", ",", "\\"];
    for _ in 0..s.range(0, 8) {
        let n = s.pick(N);
        if j.contains_key(n) {
            continue;
        }
        let a = s.pick(&["f", "g.h", "#emph", "#x", "mitexsqrt"]);
        let (v, i) = match s.below(8) {
            0 => (json!({"kind": "sym"}), TEX_SYMBOL),
            1 => (json!({"kind": "cmd1"}), TEX_CMD1),
            2 => (json!({"kind": "cmd2"}), TEX_CMD2),
            3 => (json!({"kind": "alias-sym", "alias": a}), define_symbol(a)),
            4 => (json!({"kind": "glob-cmd", "pattern": "{,b}t", "alias": a}), define_glob_command("{,b}t", a)),
            5 => (json!({"kind": "greedy-cmd", "alias": a}), define_greedy_command(a)),
            6 => (json!({"kind": "left1-cmd"}), TEX_LEFT1_OPEARTOR),
            _ => (json!({"kind": "cmd", "args": {"kind": "right", "pattern": {"kind": "fixed-len", "len": 3}}, "alias": a}), define_command_with_alias(3, a)),
        };
        j.insert(n.into(), v);
        b.add_command(n, i);
    }
    for n in ["matrix", "foo", "aligned"] {
        if s.chance(1, 3) && !j.contains_key(n) {
            j.insert(n.into(), json!({"kind": "matrix-env"}));
            b.add_command(n, TEX_MATRIX_ENV);
        }
    }
    // specifications of more than a buffer
    if s.chance(1, 200) {
        let top = s.of(&[60, 300, 2_000]);
        for k in 0..s.range(20, top) {
            let n = format!("nm{}", k.to_string().bytes().map(|d| (d - b'0' + b'a') as char).collect::<String>());
            let a = format!("{n}.of");
            j.insert(n.clone(), json!({"kind": "alias-sym", "alias": a}));
            b.add_command(&n, define_symbol(&a));
        }
    }
    (json!({ "commands": j }).to_string(), b.build())
}
const FORMULAS: &[&str] = &[
    "\\foo{a}{b}{c}d", "\\frac12+\\alpha", "\\sqrt[3]{x}", "a\\over b", "\\bar x", "\\displaystyle x y", "x\\limits_2", "\\begin{matrix}a&b\\\\c\\end{matrix}",
    "\\begin{foo}a&b\\end{foo}", "\\text{a $b$}", "\\hat\\hat x", "\\foo*ab", "\\newcommand{\\q}[1]{#1#1}\\q{z}", "a_1^2", "\\begin{aligned}a\\\\b\\end{aligned}", "", "\\textbf{x}", "é%\n", "\\nmb c", "\\nmbaa", "\\nmbjj",
];
fn formula(s: &mut Src) -> String {
    match s.below(4) {
        0 => gen::soup(s, false),
        1 => {
            let v = Gen { s, cfg: Cfg { len: 3, ..MATH } }.list(3);
            let mut x = Tex::plain();
            x.list(&v);
            x.out
        }
        _ => (0..s.range(1, 3)).map(|_| s.pick(FORMULAS)).collect::<Vec<_>>().join(" "),
    }
}
fn plugin(s: &mut Src, o: &mut Obs) -> Res {
    // a history of calls, each with a specification of its own
    let specs: Vec<(String, CommandSpec)> = (0..s.range(1, 3)).map(|_| json_spec(s)).collect();
    let n = s.range(1, 6);
    let mut calls = vec![];
    for _ in 0..n {
        let text = if s.chance(1, 2) { document(s).0 } else { formula(s) };
        let mut bytes = text.into_bytes();
        if s.chance(1, 10) {
            let at = s.below(bytes.len() + 1);
            bytes.insert(at, s.of(&[0xffu8, 0xc3, 0x80, 0xf0]));
        }
        calls.push((s.chance(1, 2), s.chance(1, 3).then(|| s.below(specs.len())), bytes));
    }
    o.show(
        specs.iter().map(|(j, _)| cut(j, 800)).chain(calls.iter().map(|(m, k, b)| format!("{} spec {k:?} {}", if *m { "math" } else { "text" }, cut(&format!("{:?}", String::from_utf8_lossy(b)), 600)))).collect::<Vec<_>>().join("\n"),
    );
    o.nontrivial = calls.iter().any(|c| c.1.is_some()) && calls.len() > 1;
    if dry() {
        return Ok(());
    }
    let mut compiled = vec![];
    for (j, sp) in &specs {
        let b = guarded(|| wasm::compile_spec(j.as_bytes()))?.map_err(|e| format!("the specification is refused: {e}"))?;
        let back = guarded(|| CommandSpec::from_bytes(&b))?;
        let dump = |s: &CommandSpec| s.items().map(|(k, v)| format!("{k:?} {v:?}")).collect::<BTreeSet<_>>();
        same("the compiled specification", &dump(&back), &dump(sp))?;
        compiled.push(b);
    }
    for (math, k, bytes) in &calls {
        let empty = vec![];
        let spec = k.map_or(&empty, |k| &compiled[k]);
        let got = guarded(|| if *math { wasm::convert_math(bytes, spec) } else { wasm::convert_text(bytes, spec) });
        let Ok(text) = std::str::from_utf8(bytes) else {
            o.label("not UTF-8");
            match got {
                Ok(Ok(r)) => return Err(format!("bytes that are not UTF-8 convert to {:?}", String::from_utf8_lossy(&r))),
                Ok(Err(e)) if !e.is_empty() => continue,
                e => return Err(format!("bytes that are not UTF-8 are not reported as an error: {e:?}")),
            }
        };
        let sp = k.map(|k| specs[k].1.clone());
        let want = guarded(|| if *math { mitex::convert_math(text, sp) } else { mitex::convert_text(text, sp) });
        match (got, want) {
            (Ok(g), Ok(w)) => {
                o.label_if(w.is_err(), "error");
                same("the plugin's answer", &g.map(|b| String::from_utf8_lossy(&b).into_owned()), &w)?;
            }
            (Err(_), Err(_)) => {}
            (g, w) => return Err(format!("the plugin answers {g:?}, the library {w:?}")),
        }
    }
    Ok(())
}
fn plugin_bad(s: &mut Src, o: &mut Obs) -> Res {
    let (j, sp) = json_spec(s);
    let text = s.pick(FORMULAS);
    let math = s.chance(1, 2);
    let kind = s.below(3);
    let junk: Vec<u8> = match kind {
        0 => {
            let mut t = j.clone();
            match s.below(4) {
                0 => t.truncate(s.below(t.len())),
                1 => t.push('}'),
                2 => t = t.replacen("commands", "command", 1),
                _ => t = s.pick(&["", "{}", "[]", "null", "{\"commands\": {\"x\": {\"kind\": \"none\"}}}", "{\"commands\": []}", "x"]).into(),
            }
            let mut b = t.into_bytes();
            if s.chance(1, 5) {
                b.insert(0, 0xff);
            }
            b
        }
        1 => (0..s.range(1, 60)).map(|_| s.below(256) as u8).collect(),
        _ => {
            let b = sp.to_bytes();
            b[..s.range(1, b.len() - 1)].to_vec()
        }
    };
    o.show(format!("{kind} {:?} on {text:?}", String::from_utf8_lossy(&junk)));
    o.nontrivial = junk.len() > 4;
    if dry() {
        return Ok(());
    }
    if kind == 0 {
        return match guarded(|| wasm::compile_spec(&junk))? {
            Ok(_) => Err("it is compiled as a specification".into()),
            Err(e) if e.is_empty() => Err("it is refused without a message".into()),
            Err(_) => Ok(()),
        };
    }
    // refused one way or the other, but not answered from some specification
    match guarded(|| if math { wasm::convert_math(text.as_bytes(), &junk) } else { wasm::convert_text(text.as_bytes(), &junk) }) {
        Ok(Ok(r)) if !text.is_empty() => {
            let none = if math { mitex::convert_math(text, Some(CommandSpec::new(Default::default()))) } else { mitex::convert_text(text, Some(CommandSpec::new(Default::default()))) };
            let r = String::from_utf8_lossy(&r).into_owned();
            // bytes may happen to be an empty specification
            if none.as_ref() == Ok(&r) {
                return Ok(());
            }
            Err(format!("it is used as a specification: {r:?}"))
        }
        _ => Ok(()),
    }
}

fn main() {
    main_for(vec![
        Property {
            id: "C21",
            rule: "a document of more than 10 characters and a proper use of the command line",
            assumptions: &["the input is not named as the output explicitly"],
            subs: vec![sub("compile", 30_000, 600_000, cli), sub("typ-input", 1_000, 10_000, cli_typ), sub("tool", 600, 8_000, tool)],
        },
        Property {
            id: "C22",
            rule: "several calls, one with a specification of its own (invalid specifications: more than 4 bytes)",
            assumptions: &["the plugin's source is compiled natively; the protocol macro is replaced by a stand-in", "a specification that cannot be read may end the call in a panic (which the plugin host reports)"],
            subs: vec![sub("calls", 400_000, 8_000_000, plugin), sub("not-a-specification", 200_000, 3_000_000, plugin_bad)],
        },
    ]);
}
