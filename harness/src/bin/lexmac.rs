use mitex_lexer::{Lexer, MacroEngine, Token};
use mitex_parser::command_preludes::*;
use mitex_parser::CommandSpec;
use vk::*;

fn star_spec() -> CommandSpec {
    let mut b = SpecBuilder::default();
    for n in ["operatorname*", "section*", "hat", "frac", "foo@bar*", "@x*", "begin*", "left*"] {
        b.add_command(n, TEX_CMD1);
    }
    b.build()
}

struct Specs {
    default: CommandSpec,
    star: CommandSpec,
    empty: CommandSpec,
}
fn specs() -> Specs {
    Specs {
        default: mitex_spec_gen::DEFAULT_SPEC.clone(),
        star: star_spec(),
        empty: SpecBuilder::default().build(),
    }
}
impl Specs {
    fn pick(&self, s: &mut Src) -> &CommandSpec {
        match s.below(3) {
            0 => &self.default,
            1 => &self.star,
            _ => &self.empty,
        }
    }
}

fn c01() -> Property {
    let sp = specs();
    let plain = sub("tokens", 1_200_000, 40_000_000, move |s, o| {
        let spec = sp.pick(s);
        let text = gen::soup(s, true);
        o.show(&text);
        if dry() {
            return Ok(());
        }
        let want = reflex::tokens(&text, &|n| spec.get(n).is_some());
        o.nontrivial = want.len() >= 3 && want.iter().any(|t| !t.0.is_trivia() && t.0 != Token::Word);
        o.label_if(want.len() > 200, "longer-than-a-page");
        o.label_if(text.contains("\\begin") || text.contains("\\end"), "environment-marker");
        let mut lx: Lexer<()> = Lexer::new(&text, spec.clone());
        for (i, w) in want.iter().enumerate() {
            let pk = (lx.peek(), lx.peek_text(), lx.peek_char());
            same(&format!("peek of token {i}"), &pk, &(Some(w.0), Some(w.1), w.1.chars().next()))?;
            same(&format!("token {i}"), &lx.eat(), &Some(*w))?;
        }
        same("after the end", &(lx.peek(), lx.peek_text(), lx.eat()), &(None, None, None))
    });
    let sp = specs();
    let split = sub("split", 500_000, 16_000_000, move |s, o| {
        let spec = sp.pick(s);
        let text = gen::soup(s, true);
        let want = reflex::tokens(&text, &|n| spec.get(n).is_some());
        // eat whole tokens or parts of them
        let plan: Vec<usize> = want.iter().map(|_| if s.chance(1, 3) { s.range(1, 3) } else { 0 }).collect();
        o.show(format!("{text:?} plan {plan:?}"));
        if dry() {
            return Ok(());
        }
        o.nontrivial = plan.iter().zip(&want).any(|(p, w)| *p > 0 && w.1.chars().count() > *p);
        let mut lx: Lexer<()> = Lexer::new(&text, spec.clone());
        for (i, (w, p)) in want.iter().zip(&plan).enumerate() {
            let mut rest = w.1;
            for _ in 0..*p {
                let Some(c) = rest.chars().next() else { break };
                if rest.len() == c.len_utf8() {
                    break; // the last character is eaten with the token
                }
                lx.consume_utf8_bytes(c.len_utf8());
                rest = &rest[c.len_utf8()..];
                same(&format!("rest of token {i}"), &(lx.peek(), lx.peek_text()), &(Some(w.0), Some(rest)))?;
            }
            if *p == 3 && !rest.is_empty() {
                lx.consume_utf8_bytes(rest.len());
            } else {
                same(&format!("token {i}"), &lx.eat(), &Some((w.0, rest)))?;
            }
        }
        same("after the end", &lx.eat(), &None)
    });
    let sp = specs();
    let engine = sub("no-macros", 500_000, 16_000_000, move |s, o| {
        let spec = sp.pick(s);
        let text = gen::soup(s, false);
        o.show(&text);
        if dry() {
            return Ok(());
        }
        let want = reflex::tokens(&text, &|n| spec.get(n).is_some());
        o.nontrivial = want.len() >= 3;
        o.label_if(want.len() > 200, "longer-than-a-page");
        let mut lx = Lexer::new_with_bumper(&text, spec.clone(), MacroEngine::new(spec.clone()));
        for (i, w) in want.iter().enumerate() {
            same(&format!("peek {i} with macros on"), &(lx.peek(), lx.peek_text()), &(Some(w.0), Some(w.1)))?;
            same(&format!("token {i} with macros on"), &lx.eat(), &Some(*w))?;
        }
        same("after the end", &lx.eat(), &None)
    });
    Property {
        id: "C01",
        rule: "random texts over all ASCII punctuation, Unicode words and blanks, comments, escapes, commands, starred names, conditionals and environment markers with blanks/comments inside (0..700 pieces, so inputs cross every internal buffer), under three specifications; each is tokenized and compared token by token (kind and text, peeked and eaten, whole and in parts) with an independent linear reference tokenizer. Non-trivial: >=3 tokens incl. one that is neither a word nor blank (tokens/no-macros), or a token really eaten in parts (split)",
        assumptions: &["the reference tokenizer in harness/src/reflex.rs states the lexical rules"],
        subs: vec![plain, split, engine],
    }
}

fn main() {
    main_for(vec![c01()])
}
