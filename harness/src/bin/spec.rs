//! Command specifications and their encodings.
use mitex_spec::{ArgPattern, ArgShape, CmdShape, CommandSpec, CommandSpecItem, ContextFeature, EnvShape};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vk::*;

// ------------------------------------------------------------------ model
#[derive(Clone, PartialEq, Debug)]
enum Pat {
    None,
    Fixed(u8),
    Range(u8, u8),
    Greedy,
    Glob(String),
}
#[derive(Clone, PartialEq, Debug)]
enum Item {
    Right(Pat, Option<String>),
    Left1(Option<String>),
    Infix(Option<String>),
    Env(Pat, &'static str, Option<String>),
}
type Model = BTreeMap<String, Item>;
const CTX: &[&str] = &["none", "is-math", "is-matrix", "is-cases", "is-figure", "is-table", "is-itemize", "is-enumerate"];

fn ctx(n: &str) -> ContextFeature {
    match n {
        "none" => ContextFeature::None,
        "is-math" => ContextFeature::IsMath,
        "is-matrix" => ContextFeature::IsMatrix,
        "is-cases" => ContextFeature::IsCases,
        "is-figure" => ContextFeature::IsFigure,
        "is-table" => ContextFeature::IsTable,
        "is-itemize" => ContextFeature::IsItemize,
        _ => ContextFeature::IsEnumerate,
    }
}
fn ctx_name(c: &ContextFeature) -> &'static str {
    match c {
        ContextFeature::None => "none",
        ContextFeature::IsMath => "is-math",
        ContextFeature::IsMatrix => "is-matrix",
        ContextFeature::IsCases => "is-cases",
        ContextFeature::IsFigure => "is-figure",
        ContextFeature::IsTable => "is-table",
        ContextFeature::IsItemize => "is-itemize",
        ContextFeature::IsEnumerate => "is-enumerate",
    }
}
fn pat(p: &Pat) -> ArgPattern {
    match p {
        Pat::None => ArgPattern::None,
        Pat::Fixed(n) => ArgPattern::FixedLenTerm { len: *n },
        Pat::Range(a, b) => ArgPattern::RangeLenTerm { min: *a, max: *b },
        Pat::Greedy => ArgPattern::Greedy,
        Pat::Glob(g) => ArgPattern::Glob { pattern: g.as_str().into() },
    }
}
fn unpat(p: &ArgPattern) -> Pat {
    match p {
        ArgPattern::None => Pat::None,
        ArgPattern::FixedLenTerm { len } => Pat::Fixed(*len),
        ArgPattern::RangeLenTerm { min, max } => Pat::Range(*min, *max),
        ArgPattern::Greedy => Pat::Greedy,
        ArgPattern::Glob { pattern } => Pat::Glob(pattern.0.to_string()),
    }
}
fn item(i: &Item) -> CommandSpecItem {
    let cmd = |args, alias: &Option<String>| CommandSpecItem::Cmd(CmdShape { args, alias: alias.clone() });
    match i {
        Item::Right(p, a) => cmd(ArgShape::Right { pattern: pat(p) }, a),
        Item::Left1(a) => cmd(ArgShape::Left1, a),
        Item::Infix(a) => cmd(ArgShape::InfixGreedy, a),
        Item::Env(p, c, a) => CommandSpecItem::Env(EnvShape { args: pat(p), ctx_feature: ctx(c), alias: a.clone() }),
    }
}
fn unitem(i: &CommandSpecItem) -> Item {
    match i {
        CommandSpecItem::Cmd(c) => match &c.args {
            ArgShape::Right { pattern } => Item::Right(unpat(pattern), c.alias.clone()),
            ArgShape::Left1 => Item::Left1(c.alias.clone()),
            ArgShape::InfixGreedy => Item::Infix(c.alias.clone()),
        },
        CommandSpecItem::Env(e) => Item::Env(unpat(&e.args), ctx_name(&e.ctx_feature), e.alias.clone()),
    }
}
fn build(m: &Model) -> CommandSpec {
    CommandSpec::new(m.iter().map(|(k, v)| (k.clone(), item(v))).collect())
}
fn unbuild(s: &CommandSpec) -> Model {
    s.items().map(|(k, v)| (k.to_string(), unitem(v))).collect()
}
/// The specification says what the model says, whichever way it is asked.
fn agrees(what: &str, s: &CommandSpec, m: &Model) -> Res {
    let n = s.items().count();
    if n != m.len() {
        return Err(format!("{what}: {n} items, {} expected", m.len()));
    }
    let got = unbuild(s);
    for (k, want) in m {
        match got.get(k) {
            None => return Err(format!("{what}: {k:?} is lost")),
            Some(g) if g != want => return Err(format!("{what}: {k:?} is {g:?} instead of {want:?}")),
            _ => {}
        }
        let by = s.get(k).map(unitem);
        if by.as_ref() != Some(want) {
            return Err(format!("{what}: looking up {k:?} gives {by:?} instead of {want:?}"));
        }
        let env = matches!(want, Item::Env(..));
        if s.get_cmd(k).is_some() == env || s.get_env(k).is_some() != env {
            return Err(format!("{what}: {k:?} is looked up as the wrong kind"));
        }
    }
    // names that are nearly those of the specification
    for near in m.keys().flat_map(|k| [format!("{k}*"), k.trim_end_matches('*').to_string(), k.to_uppercase(), format!("\\{k}")]) {
        if !m.contains_key(&near) && (s.get(&near).is_some() || s.get_cmd(&near).is_some() || s.get_env(&near).is_some()) {
            return Err(format!("there is an item {near:?}"));
        }
    }
    if s.get("no such name").is_some() && !m.contains_key("no such name") {
        return Err(format!("{what}: an unknown name is found"));
    }
    Ok(())
}

// -------------------------------------------------------------- generators
fn string(s: &mut Src) -> String {
    match s.below(8) {
        0 => String::new(),
        1 => s.pick(&["é", "∑", "𝔸b", "a\"b", "a\\b", "\n", "\0", "#x", "日本語の名前"]).to_string(),
        2 => "alias".repeat(s.range(1, 60)),
        _ => {
            let n = s.range(1, 12);
            (0..n).map(|_| s.pick(&["a", "b", "x", "A", "@", "*", "-", "1", "."])).collect()
        }
    }
}
fn alias(s: &mut Src) -> Option<String> {
    s.chance(2, 3).then(|| string(s))
}
fn any_pat(s: &mut Src) -> Pat {
    let num = |s: &mut Src| if s.chance(1, 6) { s.range(0, 255) as u8 } else { s.below(4) as u8 };
    match s.below(5) {
        0 => Pat::None,
        1 => Pat::Fixed(num(s)),
        2 => Pat::Range(num(s), num(s)),
        3 => Pat::Greedy,
        _ => Pat::Glob(if s.chance(1, 4) { string(s) } else { s.pick(&["{,b}t", "t", "{,b}{,p}tt", "*", "[!b]t", "ttttttttttt"]).to_string() }),
    }
}
fn any_item(s: &mut Src) -> Item {
    match s.below(6) {
        0 => Item::Left1(alias(s)),
        1 => Item::Infix(alias(s)),
        2 | 3 => Item::Right(any_pat(s), alias(s)),
        _ => Item::Env(any_pat(s), s.pick(CTX), alias(s)),
    }
}
fn any_model(s: &mut Src) -> Model {
    let n = match s.below(12) {
        0 => 0,
        1 => s.range(40, 300),
        _ => s.range(1, 9),
    };
    (0..n).map(|i| (if s.chance(1, 2) { string(s) } else { format!("n{i}") }, any_item(s))).collect()
}
fn show(m: &Model) -> String {
    cut(&m.iter().map(|(k, v)| format!("{k:?}: {v:?}")).collect::<Vec<_>>().join("; "), 3000)
}

// ------------------------------------------------------------------ binary
fn at_offset<T>(bytes: &[u8], off: usize, f: impl FnOnce(&[u8]) -> T) -> T {
    let mut buf = vec![0xa5u8; bytes.len() + 64];
    let base = buf.as_ptr() as usize;
    let start = (16 - base % 16) % 16 + off;
    buf[start..start + bytes.len()].copy_from_slice(bytes);
    f(&buf[start..start + bytes.len()])
}
fn binary(s: &mut Src, o: &mut Obs) -> Res {
    let m = any_model(s);
    let off = s.below(17);
    o.show(format!("offset {off}, {}", show(&m)));
    o.nontrivial = m.len() >= 2 && m.values().any(|i| matches!(i, Item::Right(Pat::Glob(_) | Pat::Range(..), _) | Item::Env(..)));
    o.label_if(off % 16 != 0, "not aligned");
    o.label_if(m.len() > 30, "large");
    if dry() {
        return Ok(());
    }
    let spec = build(&m);
    agrees("as built", &spec, &m)?;
    let bytes = guarded(|| spec.to_bytes())?;
    let read = guarded(|| at_offset(&bytes, off, CommandSpec::from_bytes))?;
    agrees("read back", &read, &m)?;
    // SAFETY: the bytes are what `to_bytes` wrote
    let raw = guarded(|| at_offset(&bytes, off, |b| unsafe { CommandSpec::from_bytes_unchecked(b) }))?;
    agrees("read back unchecked", &raw, &m)?;
    let again = guarded(|| CommandSpec::from_bytes(&read.to_bytes()))?;
    agrees("written and read again", &again, &m)?;
    agrees("after writing", &spec, &m)
}
/// Bytes that are not a specification.
fn garbage(s: &mut Src, o: &mut Obs) -> Res {
    let m = any_model(s);
    let bytes = build(&m).to_bytes();
    let kind = s.below(4);
    let off = s.below(16);
    let bad: Vec<u8> = match kind {
        0 => (0..s.below(200)).map(|_| s.below(256) as u8).collect(),
        1 => bytes[..s.below(bytes.len())].to_vec(),
        2 => bytes[s.below(bytes.len()) + 1..].to_vec(),
        _ => {
            let mut b = bytes.clone();
            for _ in 0..s.range(1, 3) {
                let i = if s.chance(1, 2) { b.len() - 1 - s.below(b.len().min(40)) } else { s.below(b.len()) };
                b[i] ^= 1 << s.below(8);
            }
            b
        }
    };
    o.show(format!("kind {kind}, offset {off}, {} bytes {bad:02x?}", bad.len()));
    o.nontrivial = bad.len() > 8;
    o.label(["random", "head", "tail", "flipped"][kind]);
    if dry() {
        return Ok(());
    }
    let Ok(read) = guarded(|| at_offset(&bad, off, CommandSpec::from_bytes)) else {
        o.label("rejected");
        return Ok(());
    };
    // accepted: it must be a proper specification, with at most as much in it as the bytes hold
    let got = guarded(|| unbuild(&read))?;
    let size: usize = got.keys().map(|k| k.len()).sum();
    if size > bad.len() + 16 * got.len() {
        return Err(format!("{} bytes are read as names of {size} bytes", bad.len()));
    }
    let again = guarded(|| CommandSpec::from_bytes(&read.to_bytes()))?;
    agrees("accepted bytes, written again", &again, &got)?;
    if kind <= 1 && !got.is_empty() && got != m {
        return Err(format!("bytes that are no specification are read as {}", show(&got)));
    }
    Ok(())
}

// -------------------------------------------------------------------- JSON
fn jpat(p: &Pat) -> Value {
    match p {
        Pat::None => json!({"kind": "none"}),
        Pat::Fixed(n) => json!({"kind": "fixed-len", "len": n}),
        Pat::Range(a, b) => json!({"kind": "range-len", "min": a, "max": b}),
        Pat::Greedy => json!({"kind": "greedy"}),
        Pat::Glob(g) => json!({"kind": "glob", "pattern": g}),
    }
}
/// The documented long form.
fn jitem(i: &Item) -> Value {
    match i {
        Item::Right(p, a) => json!({"kind": "cmd", "args": {"kind": "right", "pattern": jpat(p)}, "alias": a}),
        Item::Left1(a) => json!({"kind": "cmd", "args": {"kind": "left1"}, "alias": a}),
        Item::Infix(a) => json!({"kind": "cmd", "args": {"kind": "infix-greedy"}, "alias": a}),
        Item::Env(p, c, a) => json!({"kind": "env", "args": jpat(p), "ctx_feature": {"kind": c}, "alias": a}),
    }
}
/// A shorthand form, and what it stands for.
fn short(s: &mut Src) -> (Value, Item) {
    let a = string(s);
    let g = if s.chance(1, 4) { format!("{}t", string(s)) } else { s.pick(&["{,b}t", "b", "t"]).to_string() };
    let c: &'static str = s.pick(CTX);
    match s.below(12) {
        0 => (json!({"kind": "sym"}), Item::Right(Pat::None, None)),
        1 => (json!({"kind": "cmd0"}), Item::Right(Pat::Fixed(0), None)),
        2 => (json!({"kind": "cmd1"}), Item::Right(Pat::Fixed(1), None)),
        3 => (json!({"kind": "cmd2"}), Item::Right(Pat::Fixed(2), None)),
        4 => (json!({"kind": "left1-cmd"}), Item::Left1(None)),
        5 => (json!({"kind": "matrix-env"}), Item::Env(Pat::None, "is-matrix", None)),
        6 => (json!({"kind": "normal-env"}), Item::Env(Pat::None, "none", None)),
        7 => (json!({"kind": "glob-env", "pattern": g, "alias": a, "ctx_feature": {"kind": c}}), Item::Env(Pat::Glob(g.clone()), c, Some(a))),
        8 => (json!({"kind": "alias-sym", "alias": a}), Item::Right(Pat::None, Some(a))),
        9 => (json!({"kind": "greedy-cmd", "alias": a}), Item::Right(Pat::Greedy, Some(a))),
        10 => (json!({"kind": "infix-cmd", "alias": a}), Item::Infix(Some(a))),
        _ => (json!({"kind": "glob-cmd", "pattern": g, "alias": a}), Item::Right(Pat::Glob(g.clone()), Some(a))),
    }
}
fn any_json(s: &mut Src) -> (serde_json::Map<String, Value>, Model) {
    let (mut j, mut m) = (serde_json::Map::new(), Model::new());
    for i in 0..s.range(0, 9) {
        let k = if s.chance(1, 2) { string(s) } else { format!("n{i}") };
        let (v, it) = if s.chance(1, 2) {
            let it = any_item(s);
            (jitem(&it), it)
        } else {
            short(s)
        };
        j.insert(k.clone(), v);
        m.insert(k, it);
    }
    (j, m)
}
fn json_forms(s: &mut Src, o: &mut Obs) -> Res {
    let (j, m) = any_json(s);
    let text = json!({ "commands": j }).to_string();
    o.show(cut(&text, 3000));
    o.nontrivial = m.len() >= 2;
    if dry() {
        return Ok(());
    }
    let q: mitex_spec::JsonCommandSpec = serde_json::from_str(&text).map_err(|e| format!("the JSON is not accepted: {e}"))?;
    let spec: CommandSpec = q.clone().into();
    agrees("from JSON", &spec, &m)?;
    // JSON -> query form -> JSON -> query form
    let back = serde_json::to_string(&q).map_err(|e| e.to_string())?;
    let q2: mitex_spec::JsonCommandSpec = serde_json::from_str(&back).map_err(|e| format!("rewritten JSON is not accepted: {e}"))?;
    agrees("from rewritten JSON", &q2.into(), &m)?;
    // and through the binary form
    agrees("through the binary form", &CommandSpec::from_bytes(&spec.to_bytes()), &m)?;
    // the canonical structure has a JSON form of its own
    let canon = mitex_spec::CommandSpecRepr { commands: m.iter().map(|(k, v)| (k.clone(), item(v))).collect() };
    let t = serde_json::to_string(&canon).map_err(|e| e.to_string())?;
    let c2: mitex_spec::CommandSpecRepr = serde_json::from_str(&t).map_err(|e| format!("canonical JSON is not accepted: {e}"))?;
    agrees("from canonical JSON", &CommandSpec::new(c2.commands), &m)
}
/// JSON that is not a specification is refused.
fn json_bad(s: &mut Src, o: &mut Obs) -> Res {
    let (_, it) = short(s);
    let (v, it) = match s.below(3) {
        0 => short(s),
        1 => (jitem(&it), it),
        _ => {
            let it = any_item(s);
            (jitem(&it), it)
        }
    };
    let mut v = v;
    let obj = v.as_object_mut().unwrap();
    let keys: Vec<String> = obj.keys().filter(|k| *k != "alias" || !matches!(obj["kind"].as_str(), Some("cmd" | "env"))).cloned().collect();
    let k = keys[s.below(keys.len())].clone();
    match s.below(3) {
        0 => {
            obj.remove(&k);
        }
        1 => {
            obj.insert(k.clone(), json!(true));
        }
        _ => {
            obj.insert("kind".into(), json!(s.pick(&["", "command", "Cmd", "cmd3", "Sym", "glob"])));
        }
    }
    let text = json!({ "commands": { "x": v } }).to_string();
    o.show(text.clone());
    o.nontrivial = text.len() > 40;
    let _ = it;
    if dry() {
        return Ok(());
    }
    match guarded(|| serde_json::from_str::<mitex_spec::JsonCommandSpec>(&text))? {
        Err(_) => Ok(()),
        Ok(q) => Err(format!("it is read as {}", show(&unbuild(&q.into())))),
    }
}

// ---------------------------------------------------------------- builders
fn builders(s: &mut Src, o: &mut Obs) -> Res {
    use mitex_spec::preludes::command::*;
    let mut m = Model::new();
    let mut b = SpecBuilder::default();
    for i in 0..s.range(1, 8) {
        let k = if s.chance(1, 2) { string(s) } else { format!("n{}", i % 4) };
        let a = string(s);
        let n = s.below(256) as u8;
        let opt = s.chance(1, 2).then_some(n);
        let g = if s.chance(1, 4) { format!("{}t", string(s)) } else { "{,b}t".to_string() };
        let c: &'static str = s.pick(CTX);
        let opat = opt.map(Pat::Fixed).unwrap_or(Pat::None);
        let (it, want) = match s.below(16) {
            0 => (define_command(n), Item::Right(Pat::Fixed(n), None)),
            1 => (define_glob_command(&g, &a), Item::Right(Pat::Glob(g), Some(a))),
            2 => (define_glob_env(&g, &a, ctx(c)), Item::Env(Pat::Glob(g), c, Some(a))),
            3 => (define_symbol(&a), Item::Right(Pat::None, Some(a))),
            4 => (define_command_with_alias(n, &a), Item::Right(Pat::Fixed(n), Some(a))),
            5 => (define_greedy_command(&a), Item::Right(Pat::Greedy, Some(a))),
            6 => (define_matrix_env(opt, &a), Item::Env(opat, "is-matrix", Some(a))),
            7 => (define_normal_env(opt, &a), Item::Env(opat, "none", Some(a))),
            8 => (TEX_CMD0, Item::Right(Pat::Fixed(0), None)),
            9 => (TEX_CMD1, Item::Right(Pat::Fixed(1), None)),
            10 => (TEX_CMD2, Item::Right(Pat::Fixed(2), None)),
            11 => (TEX_SYMBOL, Item::Right(Pat::None, None)),
            12 => (TEX_LEFT1_OPEARTOR, Item::Left1(None)),
            13 => (TEX_GREEDY_OPERATOR, Item::Right(Pat::Greedy, None)),
            14 => (TEX_INFIX_OPERATOR, Item::Infix(None)),
            _ => {
                if s.chance(1, 2) {
                    (TEX_MATRIX_ENV, Item::Env(Pat::None, "is-matrix", None))
                } else {
                    (TEX_NORMAL_ENV, Item::Env(Pat::None, "none", None))
                }
            }
        };
        b.add_command(&k, it);
        m.insert(k, want);
    }
    o.show(show(&m));
    o.nontrivial = m.len() >= 2;
    if dry() {
        return Ok(());
    }
    agrees("as defined", &b.build(), &m)
}

// ----------------------------------------------------------- Typst packages
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch(tag: &str) -> Scratch {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("vk-{tag}-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Scratch(d)
}
fn tstr(x: &str) -> String {
    let mut r = String::from("\"");
    for c in x.chars() {
        match c {
            '"' | '\\' => {
                r.push('\\');
                r.push(c);
            }
            c if (c as u32) < 32 => r.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => r.push(c),
        }
    }
    r + "\""
}
fn topt(x: &Option<String>) -> String {
    x.as_ref().map_or("none".into(), |x| tstr(x))
}
/// One definition with the helpers of `prelude.typ`, what it declares, and
/// under which name it is put in the scope, if it is.
fn definition(s: &mut Src, key: &str) -> (String, Item, Option<String>) {
    let a = loop {
        let a = string(s);
        if !a.is_empty() {
            break a;
        }
    };
    let a = if s.chance(1, 4) { format!("#{a}") } else { a };
    let n = s.below(4) as u8;
    let g = s.pick(&["{,b}t", "b", "{,b}{,p}tt"]).to_string();
    let c: &'static str = s.pick(CTX);
    let h = s.chance(1, 2);
    let handle = |n: &str| if h { format!(", {n}: 1") } else { String::new() };
    let key_of = |a: &str| a.strip_prefix('#').unwrap_or(a).to_string();
    let named = h.then(|| key_of(&a));
    let opt = s.chance(1, 2).then(|| a.clone());
    let opt_named = h.then(|| opt.as_deref().map_or(key.to_string(), key_of));
    match s.below(12) {
        0 => (format!("define-sym({}{})", tstr(&a), handle("sym")), Item::Right(Pat::None, Some(a)), named),
        1 => (format!("define-greedy-cmd({}{})", tstr(&a), handle("handle")), Item::Right(Pat::Greedy, Some(a)), named),
        2 => (format!("define-infix-cmd({}{})", tstr(&a), handle("handle")), Item::Infix(Some(a)), named),
        3 => (format!("define-glob-cmd({}, {}{})", tstr(&g), tstr(&a), handle("handle")), Item::Right(Pat::Glob(g), Some(a)), named),
        4 | 5 => (format!("define-cmd({n}, alias: {}{})", topt(&opt), handle("handle")), Item::Right(Pat::Fixed(n), opt), opt_named),
        6 => {
            let no = s.chance(1, 2);
            let p = if no { Pat::None } else { Pat::Fixed(n) };
            let nn = if no { "none".to_string() } else { n.to_string() };
            (format!("define-env({nn}, kind: {}, alias: {}{})", tstr(c), topt(&opt), handle("handle")), Item::Env(p, c, opt), opt_named)
        }
        7 => (
            format!("define-glob-env({}, kind: {}, alias: {}{})", tstr(&g), tstr(c), tstr(&a), handle("handle")),
            Item::Env(Pat::Glob(g), c, Some(a)),
            named,
        ),
        8 => {
            if s.chance(1, 2) {
                ("sym".into(), Item::Right(Pat::None, None), None)
            } else {
                ("of-sym(1)".into(), Item::Right(Pat::None, None), Some(key.to_string()))
            }
        }
        9 => (format!("left1-op({})", tstr(&a)), Item::Left1(Some(a)), None),
        10 => {
            if s.chance(1, 2) {
                ("cmd1".into(), Item::Right(Pat::Fixed(1), None), None)
            } else {
                ("cmd2".into(), Item::Right(Pat::Fixed(2), None), None)
            }
        }
        _ => ("matrix-env".into(), Item::Env(Pat::None, "is-matrix", None), None),
    }
}
fn run(cmd: &mut std::process::Command) -> Result<Vec<u8>, String> {
    let out = cmd.output().map_err(|e| format!("cannot run {cmd:?}: {e}"))?;
    if !out.status.success() {
        return Err(format!("{:?} fails: {}", cmd.get_program(), cut(&String::from_utf8_lossy(&out.stderr), 1500)));
    }
    Ok(out.stdout)
}
fn packages(s: &mut Src, o: &mut Obs) -> Res {
    let mut m = Model::new();
    let mut scope = std::collections::BTreeSet::new();
    let mut src = String::from("#import \"prelude.typ\": *\n");
    let np = s.range(1, 4);
    let mut overridden = false;
    for p in 0..np {
        let mut defs = vec![];
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..s.range(1, 7) {
            let key = if s.chance(2, 3) { format!("n{}", s.below(5)) } else { string(s) };
            if !seen.insert(key.clone()) {
                continue;
            }
            let (t, it, sc) = definition(s, &key);
            defs.push(format!("  {}: {t},\n", tstr(&key)));
            overridden |= m.get(&key).is_some_and(|x| *x != it);
            m.insert(key, it);
            scope.extend(sc);
        }
        src.push_str(&format!(
            "#let r{p} = process-spec((\n{}))\n#let p{p} = (name: \"p{p}\", spec: (commands: r{p}.spec), scope: r{p}.scope)\n",
            defs.concat()
        ));
    }
    let names: String = (0..np).map(|p| format!("p{p}, ")).collect();
    let data = "#metadata(packages.map(p => (name: p.name, spec: p.spec))) <mitex-packages>\n";
    // no list of packages, two of them, or one that is not a list of packages
    let bad = s.chance(1, 12).then(|| s.below(4));
    let data = match bad {
        None => data.to_string(),
        Some(0) => String::new(),
        Some(1) => data.repeat(2),
        Some(2) => data.replace("spec: p.spec", "spec: (commands: (x: (kind: \"nosuch\")))"),
        Some(_) => data.replace("p => (name: p.name, spec: p.spec)", "p => p.name"),
    };
    let by_tool = s.chance(1, 2);
    src.push_str(&format!(
        "#let packages = ({names})\n{data}#metadata(packages.map(p => p.scope).sum().keys()) <scope-keys>\n"
    ));
    o.show(format!("{}{}", if by_tool { "mitex spec generate on " } else { "" }, cut(&src, 4000)));
    o.label_if(by_tool, "by the command line tool");
    o.label_if(bad.is_some(), "no proper list of packages");
    o.nontrivial = bad.is_none() && np >= 2 && m.len() >= 3;
    o.label_if(overridden, "a later package overrides");
    if dry() {
        return Ok(());
    }
    let d = scratch("spec");
    let root = &d.0;
    std::fs::create_dir_all(root.join("packages/mitex/specs")).unwrap();
    std::fs::create_dir_all(root.join("crates/gen")).unwrap();
    std::fs::create_dir_all(root.join("out")).unwrap();
    std::fs::write(root.join("Cargo.toml"), "").unwrap();
    std::fs::copy("/repo/packages/mitex/specs/prelude.typ", root.join("packages/mitex/specs/prelude.typ")).map_err(|e| e.to_string())?;
    std::fs::write(root.join("packages/mitex/specs/mod.typ"), &src).unwrap();
    let bin = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    // the build script writes beneath OUT_DIR, the tool beneath target
    let (mut gen, dir) = if by_tool {
        let mut c = std::process::Command::new(bin.join("mitexcli"));
        c.args(["spec", "generate"]);
        (c, root.join("target/mitex-artifacts/spec"))
    } else {
        (std::process::Command::new(bin.join("specgen")), root.join("out/mitex-artifacts/spec"))
    };
    let done = run(gen.env("CARGO_MANIFEST_DIR", root.join("crates/gen")).env("OUT_DIR", root.join("out")).current_dir(root));
    if bad.is_some() {
        return match done {
            Ok(_) => Err("a specification is made of something that is no list of packages".into()),
            Err(e) if e.starts_with("cannot run") => Err(e),
            Err(_) if dir.join("default.rkyv").exists() => Err("it fails, but a specification is written".into()),
            Err(_) => Ok(()),
        };
    }
    done?;
    let read = |n: &str| std::fs::read(dir.join(n)).map_err(|e| format!("no {n} is written: {e}"));
    agrees("the compiled packages", &CommandSpec::from_bytes(&read("default.rkyv")?), &m)?;
    let j: mitex_spec::JsonCommandSpec = serde_json::from_slice(&read("default.json")?).map_err(|e| format!("default.json is not accepted: {e}"))?;
    agrees("the compiled packages as JSON", &j.into(), &m)?;
    let p: mitex_spec::query::PackagesVec = serde_json::from_slice(&read("packages.json")?).map_err(|e| format!("packages.json is not accepted: {e}"))?;
    same("the packages", &p.0.iter().map(|p| p.name.clone()).collect::<Vec<_>>(), &(0..np).map(|p| format!("p{p}")).collect())?;
    let keys = query(root, "<scope-keys>")?;
    let got: std::collections::BTreeSet<String> = keys[0]["value"].as_array().map(|v| v.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
    same("the names in scope", &got, &scope)
}
fn query(root: &Path, label: &str) -> Result<Value, String> {
    let out = run(std::process::Command::new("typst").args(["query", "--root"]).arg(root).arg(root.join("packages/mitex/specs/mod.typ")).arg(label))?;
    serde_json::from_slice(&out).map_err(|e| e.to_string())
}
/// A list of packages keeps its order through JSON.
fn packages_json(s: &mut Src, o: &mut Obs) -> Res {
    let mut list = vec![];
    let mut models = vec![];
    for i in 0..s.range(0, 5) {
        let (j, m) = any_json(s);
        list.push(json!({"name": format!("p{}{i}", string(s)), "spec": {"commands": j}, "scope": {"ignored": 1}}));
        models.push(m);
    }
    let v = Value::Array(list.clone());
    o.show(cut(&v.to_string(), 3000));
    o.nontrivial = list.len() >= 2;
    if dry() {
        return Ok(());
    }
    let p: mitex_spec::query::PackagesVec = serde_json::from_str(&v.to_string()).map_err(|e| format!("not accepted: {e}"))?;
    let p: mitex_spec::query::PackagesVec = serde_json::from_str(&serde_json::to_string(&p).unwrap()).map_err(|e| format!("rewritten form not accepted: {e}"))?;
    same("the number of packages", &p.0.len(), &list.len())?;
    for ((p, j), m) in p.0.into_iter().zip(&list).zip(&models) {
        same("the name", &Some(p.name.as_str()), &j["name"].as_str())?;
        agrees(&p.name, &p.spec.into(), m)?;
    }
    Ok(())
}

fn main() {
    main_for(vec![Property {
        id: "C10",
        rule: "the specification has at least two items (binary: with a glob, a range or an environment among them)",
        assumptions: &[
            "bit errors inside names give other specifications; for those only a consistent result or a rejection is asked for",
            "random bytes and cut-off heads of an encoding must be rejected or read as nothing",
        ],
        subs: vec![
            sub("binary", 400_000, 8_000_000, binary),
            sub("not-a-specification", 600_000, 10_000_000, garbage),
            sub("json", 400_000, 8_000_000, json_forms),
            sub("not-json", 300_000, 3_000_000, json_bad),
            sub("package-list", 100_000, 2_000_000, packages_json),
            sub("definitions", 400_000, 4_000_000, builders),
            sub("packages", 1_500, 20_000, packages),
        ],
    }]);
}
