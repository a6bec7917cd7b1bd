//! Random command specifications.
use crate::{gen, Src};
use mitex_spec::{ArgPattern, ArgShape, CmdShape, CommandSpec, CommandSpecItem, ContextFeature, EnvShape};

pub const NAMES: &[&str] = &[
    "alpha", "frac", "sqrt", "hat", "over", "limits", "displaystyle", "sum", "text", "color", "textcolor", "colorbox", "substack",
    "item", "label", "includegraphics", "caption", "centering", "hline", "toprule", "operatorname", "operatorname*", "section*", "\\",
    ",", "{", "}", "", "left", "right", "begin", "end", "mitexrecurse", "iftrue", "textbf", "foo@bar", "newcommand", "&", "tag", "prime",
];
pub const PATS: &[&str] = &["", "t", "b", "p", "{,b}t", "{,b}", "tt", "*", "{b,t}p", "**", "?", "{,b}tt", "[bt]", "[!t]", "t*", "b*t", "{,p}{,b}t", "{"];
pub fn any_pattern(s: &mut Src, env: bool) -> ArgPattern {
    match s.below(if env { 4 } else { 5 }) {
        0 => ArgPattern::None,
        1 => ArgPattern::FixedLenTerm { len: s.below(4) as u8 },
        2 => {
            let min = s.below(3) as u8;
            ArgPattern::RangeLenTerm { min, max: min + s.below(3) as u8 }
        }
        3 => ArgPattern::Glob { pattern: s.pick(&PATS[..PATS.len() - 1]).into() },
        _ => ArgPattern::Greedy,
    }
}
pub fn any_spec(s: &mut Src) -> CommandSpec {
    let mut m = std::collections::HashMap::<String, CommandSpecItem>::new();
    let alias = |s: &mut Src| match s.below(4) {
        0 => None,
        1 => Some(s.pick(&["a", "frac", "mitexcolor", "substack"]).to_string()),
        2 => Some(s.pick(&["#x", "#strong", "#a(b: 1)"]).to_string()),
        _ => Some(s.pick(&["", "+", "é"]).to_string()),
    };
    for _ in 0..s.range(0, 14) {
        let n = s.pick(NAMES);
        let args = match s.below(6) {
            0 => ArgShape::Left1,
            1 => ArgShape::InfixGreedy,
            _ => ArgShape::Right { pattern: any_pattern(s, false) },
        };
        let alias = alias(s);
        m.insert(n.to_string(), CommandSpecItem::Cmd(CmdShape { args, alias }));
    }
    for _ in 0..s.range(0, 8) {
        let n = s.pick(gen::ENVS);
        let args = any_pattern(s, true);
        let ctx_feature = match s.below(8) {
            0 => ContextFeature::None,
            1 => ContextFeature::IsMath,
            2 => ContextFeature::IsMatrix,
            3 => ContextFeature::IsCases,
            4 => ContextFeature::IsFigure,
            5 => ContextFeature::IsTable,
            6 => ContextFeature::IsItemize,
            _ => ContextFeature::IsEnumerate,
        };
        let alias = alias(s);
        m.insert(n.to_string(), CommandSpecItem::Env(EnvShape { args, ctx_feature, alias }));
    }
    CommandSpec::new(m.into_iter().collect())
}
pub fn show_spec(sp: &CommandSpec) -> String {
    let mut v: Vec<String> = sp.items().map(|(k, i)| format!("{k:?}: {i:?}")).collect();
    v.sort();
    v.join("; ")
}
