//! The catalogue of commands and environments.
use mitex_spec::preludes::command::*;
use mitex_spec::{ArgPattern, ArgShape, CommandSpec, CommandSpecItem, ContextFeature};
use mitex_spec_gen::DEFAULT_SPEC;
use vk::catal::*;
use vk::doc::*;
use vk::*;

/// The default specification is the exported one: no more, no less.
fn same_catalogue(s: &mut Src, o: &mut Obs) -> Res {
    let c = cat();
    let i = s.below(c.known.len());
    let n = c.known[i];
    o.show(n);
    o.nontrivial = true;
    if dry() {
        return Ok(());
    }
    let want = &c.long[n];
    let Some(item) = DEFAULT_SPEC.get(n) else {
        return Err(format!("{n:?} is not in the default specification"));
    };
    same("the default specification", &described(item).to_string(), &want.to_string())?;
    same("the number of names", &DEFAULT_SPEC.items().count(), &c.long.len())
}

fn check_math(tex: &str, want: &str, spec: Option<CommandSpec>) -> Res {
    match guarded(|| mitex::convert_math(tex, spec))? {
        Ok(got) => same_str("the converted formula", &norm_math(&got), &norm_math(want)),
        Err(e) => Err(format!("it is refused: {e}")),
    }
}
fn formulas(s: &mut Src, o: &mut Obs) -> Res {
    let mut v = Gen { s, cfg: CFG }.list(3);
    let mut n = full(1);
    n.list(s, &mut v);
    let tex = tex_of(&v);
    o.show(tex.clone());
    o.nontrivial = n.used.len() >= 2;
    if dry() {
        return Ok(());
    }
    check_math(&tex, &typ_list(&v), None)
}
/// every name by itself, in a plain surrounding
fn single(s: &mut Src, o: &mut Obs) -> Res {
    let c = cat();
    let n = c.known[s.below(c.known.len())];
    let arg = |s: &mut Src| if s.chance(1, 2) { Arg::Braced(Gen { s, cfg: CFG }.items(1, true)) } else { Arg::Bare(Box::new(M::Word("x".into()))) };
    let rows = |s: &mut Src| -> Vec<Vec<Vec<M>>> { (0..s.range(1, 3)).map(|_| (0..s.range(1, 3)).map(|_| Gen { s, cfg: CFG }.items(1, true)).collect()).collect() };
    let a = M::Word("p".into());
    let z = M::Word("q".into());
    let v = if c.syms.contains(&n) {
        vec![a, M::Sym(n), z]
    } else if let Some(k) = (1..3).find(|k| c.cmds[*k].contains(&n)) {
        let args = (0..k).map(|_| arg(s)).collect();
        vec![a, M::Cmd(n, args), z]
    } else if c.texts.contains(&n) {
        let t = Gen { s, cfg: CFG }.tinline(1, 3);
        vec![a, M::TextCmd(n, t), z]
    } else if c.left.contains(&n) {
        vec![a, M::Limits(Box::new(M::Sym("sum")), n, vec![('_', arg(s))]), z]
    } else if c.greedy.contains(&n) {
        vec![M::Group(vec![a, M::Greedy(n, Gen { s, cfg: CFG }.items(1, false))]), z]
    } else if c.infix.contains(&n) {
        let (l, r) = (Gen { s, cfg: CFG }.items(1, true), Gen { s, cfg: CFG }.items(1, false));
        vec![a, M::Group(vec![M::Infix(n, l, r)]), z]
    } else if let Some((_, w)) = (0..3).flat_map(|k| [(k, 0), (k, 1)]).find(|(k, w)| c.envs[*k][*w].contains(&n)) {
        vec![a, M::Env(n, (w == 1).then(|| vec![M::Word("2".into())]), rows(s), false), z]
    } else {
        o.label(format!("elsewhere: {}", if special(n) { "special" } else { n }));
        vec![]
    };
    let tex = tex_of(&v);
    o.show(format!("{n}: {tex}"));
    o.nontrivial = !v.is_empty();
    if dry() || v.is_empty() {
        return Ok(());
    }
    check_math(&tex, &typ_list(&v), None)
}
fn documents(s: &mut Src, o: &mut Obs) -> Res {
    let mut v = no_prime(trim(Gen { s, cfg: CFG }.tdoc(3, 6, false)));
    let mut n = full(2);
    n.texts(s, &mut v);
    let mut x = Tex::plain();
    x.texts(&v);
    let tex = x.out;
    o.show(tex.clone());
    o.nontrivial = n.used.len() >= 2;
    if dry() {
        return Ok(());
    }
    match guarded(|| mitex::convert_text(&tex, None))? {
        Ok(got) => same_str("the converted document", &norm_text(&got), &norm_text(&typ_texts(&v))),
        Err(e) => Err(format!("it is refused: {e}")),
    }
}

// ------------------------------------------------- specifications of one's own
const NEW: &[&str] = &["foo", "bar", "zz", "foo@bar", "Foo", "foo*", "qux", "alpha", "frac", "hat", "sum", "over", "=", "vec", "\"", "x@", "binom", "limits"];
const ALIASES: &[&str] = &["f", "my.alias", "g1", "mitexsqrt", "angle.l", "Q", "op", "frac", "x.y.z"];
fn custom(s: &mut Src, o: &mut Obs) -> Res {
    // the default names stay, some get another meaning
    let mut map: rustc_hash::FxHashMap<String, CommandSpecItem> = DEFAULT_SPEC.items().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let mut over: [std::collections::HashMap<String, String>; 2] = Default::default();
    let mut seps = std::collections::HashMap::new();
    let mut n = Names { syms: &[], solid: &[], cmds: &[], texts: &[], left: &[], greedy: &[], infix: &[], envs: &Default::default(), keep: 3, mend: false, used: vec![] };
    let (mut syms, mut cmds, mut left, mut greedy, mut infix) = (vec![], vec![vec![]; 6], vec![], vec![], vec![]);
    let mut envs: [[Vec<&'static str>; 2]; 3] = Default::default();
    let mut seen = vec![];
    let mut note = String::new();
    for _ in 0..s.range(1, 6) {
        let k = s.pick(NEW);
        if seen.contains(&k) {
            continue;
        }
        seen.push(k);
        let mut alias = if s.chance(3, 4) || !k.chars().all(|c| c.is_ascii_alphanumeric()) { Some(s.pick(ALIASES).to_string()) } else { None };
        let old = DEFAULT_SPEC.get_cmd(k);
        // a name that stands in the formulas keeps its shape
        let shape = match old {
            Some(_) if ["limits", "over"].contains(&k) => if k == "over" { 4 } else { 2 },
            Some(c) => match &c.args {
                ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len } } => 10 + *len as usize,
                _ => 0,
            },
            None => [0, 2, 3, 4, 10, 11, 12, 13, 14, 15][s.below(10)],
        };
        let right = |pattern| ArgShape::Right { pattern };
        let item = |alias: &Option<String>, args| CommandSpecItem::Cmd(mitex_spec::CmdShape { args, alias: alias.clone() });
        let it = match shape {
            0 => {
                syms.push(k);
                item(&alias, right(ArgPattern::None))
            }
            2 => {
                left.push(k);
                item(&alias, ArgShape::Left1)
            }
            3 => {
                greedy.push(k);
                // (groups in its argument are told apart by commas, which are
                // left out when comparing by these names)
                alias = Some(s.pick(&["mitexdisplay", "mitexbold", "mitexsscript"]).to_string());
                item(&alias, right(ArgPattern::Greedy))
            }
            4 => {
                infix.push(k);
                item(&alias, ArgShape::InfixGreedy)
            }
            l => {
                let l = l - 10;
                cmds[l].push(k);
                if let (Some(a), true) = (&alias, s.chance(1, 2)) { define_command_with_alias(l as u8, a) } else { item(&alias, right(ArgPattern::FixedLenTerm { len: l as u8 })) }
            }
        };
        let a = alias.clone().unwrap_or_else(|| k.to_string());
        note.push_str(&format!("\\{k} {it:?}; "));
        over[0].insert(k.to_string(), a);
        map.insert(k.to_string(), it);
    }
    for _ in 0..s.range(0, 3) {
        let k = s.pick(&["env", "matrix", "cases", "my*", "foo", "aligned"]);
        // a command of that name would be replaced
        if map.get(k).is_some_and(|i| matches!(i, CommandSpecItem::Cmd(_))) || seps.contains_key(k) {
            continue;
        }
        let sep = if DEFAULT_SPEC.get_env(k).is_some() { match sep_of(k) { Sep::Matrix => 0, Sep::Cases => 1, Sep::Plain => 2 } } else { s.below(3) };
        let args = if DEFAULT_SPEC.get_env(k).is_some() { 0 } else { s.below(2) };
        let a = s.pick(&["f", "my.env", "mat", "mitexarray"]);
        let it = CommandSpecItem::Env(mitex_spec::EnvShape {
            args: if args == 0 { ArgPattern::None } else { ArgPattern::FixedLenTerm { len: 1 } },
            ctx_feature: [ContextFeature::IsMatrix, ContextFeature::IsCases, ContextFeature::IsMath][sep].clone(),
            alias: Some(a.to_string()),
        });
        note.push_str(&format!("{k} {it:?}; "));
        envs[sep][args].push(k);
        over[1].insert(k.to_string(), a.to_string());
        seps.insert(k.to_string(), sep);
        map.insert(k.to_string(), it);
    }
    let mut v = Gen { s, cfg: CFG }.list(3);
    n.syms = &syms;
    n.solid = &syms;
    n.cmds = &cmds;
    n.left = &left;
    n.greedy = &greedy;
    n.infix = &infix;
    n.envs = &envs;
    n.list(s, &mut v);
    let used = n.used.len();
    let tex = tex_of(&v);
    o.show(format!("{note}\n{tex}"));
    o.nontrivial = used >= 2;
    if dry() {
        return Ok(());
    }
    OVER.with(|o| *o.borrow_mut() = over);
    OVER_SEP.with(|o| *o.borrow_mut() = seps);
    let want = typ_list(&v);
    OVER.with(|o| *o.borrow_mut() = Default::default());
    OVER_SEP.with(|o| *o.borrow_mut() = Default::default());
    check_math(&tex, &want, Some(CommandSpec::new(map)))
}

// ------------------------------------------------------------ unknown names
/// A name that is in no specification.
fn unknown_name(s: &mut Src, env: bool) -> String {
    let c = cat();
    loop {
        let n = match s.below(if env { 6 } else { 5 }) {
            5 => format!("{}*", c.known[s.below(c.known.len())]),
            0 => (0..s.range(1, 8)).map(|_| s.pick(&["a", "b", "q", "X", "Z", "k", "@"])).collect::<String>(),
            1 => format!("{}{}", c.known[s.below(c.known.len())], s.pick(&["x", "Q", "@", "s"])),
            2 => c.known[s.below(c.known.len())].to_uppercase(),
            3 => c.known[s.below(c.known.len())].chars().rev().collect(),
            _ => s.pick(&["nosuch", "matrix", "aligned", "figure", "nosuchcommand", "itemize"]).to_string(),
        };
        let bare = if env { n.strip_suffix('*').unwrap_or(&n) } else { &n };
        let letters = !bare.is_empty() && bare.chars().all(|c| c.is_ascii_alphabetic() || c == '@');
        let shape = if env { !matches!(DEFAULT_SPEC.get(&n), Some(CommandSpecItem::Env(_))) } else { !matches!(DEFAULT_SPEC.get(&n), Some(CommandSpecItem::Cmd(_))) };
        // names with a meaning of their own
        let own = special(&n) || (!env && ["else", "fi", "iftypst", "ifcase", "ifcat", "ifeof"].contains(&n.as_str()));
        if letters && shape && !own && !(env && n.contains('@')) {
            return n;
        }
    }
}
/// Puts it in place of some item, however deep; false if there is none.
fn plant(v: &mut Vec<M>, at: &mut usize, new: &M) -> bool {
    for m in v.iter_mut() {
        if *at == 0 && matches!(m, M::Word(_) | M::Sym(_) | M::Punct(..)) {
            *m = new.clone();
            return true;
        }
        *at = at.saturating_sub(1);
        let inner: Vec<&mut Vec<M>> = match m {
            M::Cmd(_, args) => args.iter_mut().filter_map(|a| if let Arg::Braced(v) = a { Some(v) } else { None }).collect(),
            M::Sqrt(_, Arg::Braced(v)) | M::Group(v) | M::Lr(_, _, v) | M::Greedy(_, v) | M::Color(_, _, v) | M::ColorCmd(_, _, _, Arg::Braced(v)) => vec![v],
            M::Infix(_, l, r) => vec![l, r],
            M::Env(_, _, rows, _) => rows.iter_mut().flatten().collect(),
            M::Substack(rows) => rows.iter_mut().collect(),
            M::Script(_, _, marks) | M::Limits(_, _, marks) => marks.iter_mut().filter_map(|a| if let Arg::Braced(v) = &mut a.1 { Some(v) } else { None }).collect(),
            M::TextCmd(_, t) => {
                if plant_text(t, at, new) {
                    return true;
                }
                vec![]
            }
            _ => vec![],
        };
        for i in inner {
            if plant(i, at, new) {
                return true;
            }
        }
    }
    false
}
fn plant_text(v: &mut Vec<T>, at: &mut usize, new: &M) -> bool {
    for t in v.iter_mut() {
        if *at == 0 && matches!(t, T::Word(_)) {
            *t = T::Raw(format!("{} ", tex_of(std::slice::from_ref(new))));
            return true;
        }
        *at = at.saturating_sub(1);
        let hit = match t {
            T::Cmd(_, args) => args.iter_mut().any(|a| plant_text(a, at, new)),
            T::Group(v) | T::Quote(_, v) | T::Color(_, _, _, v) | T::ColorRest(_, _, v) => plant_text(v, at, new),
            T::Inline(_, m) | T::Display(_, m) => plant(m, at, new),
            T::List(_, v) => v.iter_mut().any(|i| plant_text(i, at, new)),
            _ => false,
        };
        if hit {
            return true;
        }
    }
    false
}
fn unknown(s: &mut Src, o: &mut Obs) -> Res {
    let env = s.chance(1, 3);
    let name = unknown_name(s, env);
    let n = leak(&name);
    let new = if env {
        M::Env(n, None, vec![(0..s.range(1, 3)).map(|_| Gen { s, cfg: CFG }.items(1, true)).collect()], false)
    } else if s.chance(1, 3) {
        M::Cmd(n, vec![Arg::Braced(vec![M::Word("x".into())])])
    } else {
        M::Sym(n)
    };
    let text = s.chance(1, 2);
    let mut at = s.below(12);
    let depth = at;
    let tex = if text {
        let mut v = no_prime(trim(Gen { s, cfg: CFG }.tdoc(3, 6, true)));
        if !plant_text(&mut v, &mut at, &new) {
            v.push(T::Blank(" "));
            v.push(T::Inline(false, vec![new]));
        }
        let mut x = Tex::plain();
        x.texts(&v);
        x.out
    } else {
        let mut v = Gen { s, cfg: CFG }.list(3);
        if !plant(&mut v, &mut at, &new) {
            v.push(new);
        }
        tex_of(&v)
    };
    o.show(format!("{name}: {tex}"));
    o.nontrivial = depth > 1;
    o.label(if env { "environment" } else { "command" });
    if dry() {
        return Ok(());
    }
    let r = guarded(|| if text { mitex::convert_text(&tex, None) } else { mitex::convert_math(&tex, None) })?;
    match r {
        Ok(t) => Err(format!("the unknown name is accepted: {}", cut(&t, 800))),
        Err(e) if e.contains("unknown") && e.contains(&name) && env != e[..e.rfind(&name).unwrap()].contains("command") => Ok(()),
        Err(e) => Err(format!("the error does not say that {name} is unknown: {e}")),
    }
}

fn main() {
    // fails early if the specification files export nothing
    cat();
    main_for(vec![Property {
        id: "C11",
        rule: "at least two names of the catalogue (or of the given specification) are put in",
        assumptions: &[
            "a symbol that converts to nothing has no primes",
            "symbol commands are used in formulas (in text they are not separated from what follows)",
            "commands with a treatment of their own (lists, labels, colours, graphics, rules, definitions, conditionals) belong to other properties",
        ],
        subs: vec![
            sub("catalogue", 40_000, 100_000, same_catalogue),
            sub("single", 400_000, 5_000_000, single),
            sub("formulas", 1_000_000, 20_000_000, formulas),
            sub("documents", 400_000, 6_000_000, documents),
            sub("own-specification", 150_000, 3_000_000, custom),
            sub("unknown", 600_000, 10_000_000, unknown),
        ],
    }]);
}
