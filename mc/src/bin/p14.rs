//! P14: source text is read as written and written as it is read.
//! `scan`: every short text is cut into the tokens the token rules give, with their positions.
//! `ops`: every sequence of operators and operands is grouped by operator strength.
//! `built`: every tree the printers can build reads back as the same tree.
//! `statements`: every statement form prints as text that reads back as the same statement.
//! `values`: the code printed for a value means that value again.
use acorn::code_generator::CodeGenerator;
use acorn::elaborator::acorn_value::{AcornValue, BinaryOp};
use acorn::elaborator::evaluator::Evaluator;
use acorn::module::LoadState;
use acorn::syntax::expression::{Declaration, Expression, Terminator};
use acorn::syntax::statement::Statement;
use acorn::syntax::token::{Token, TokenIter, TokenType};
use mc::{acornx, report::*};
use serde_json::json;

// ---------------------------------------------------------------- scan

const SYMBOLS: &[(&str, &str)] = &[
    ("!=", "NotEquals"), ("->", "RightArrow"), ("<=", "LessThanOrEquals"), (">=", "GreaterThanOrEquals"),
    ("(", "LeftParen"), (")", "RightParen"), ("{", "LeftBrace"), ("}", "RightBrace"), ("[", "LeftBracket"), ("]", "RightBracket"),
    (",", "Comma"), (":", "Colon"), (".", "Dot"), ("=", "Equals"), ("+", "Plus"), ("*", "Asterisk"), ("%", "Percent"),
    ("∪", "Union"), ("∩", "Intersection"), ("∖", "Backslash"), ("∈", "ElemOf"), ("∉", "NotElemOf"), ("∋", "Contains"), ("∌", "NotContains"),
    ("⊆", "SubsetEq"), ("⊇", "SupersetEq"), ("⊂", "Subset"), ("⊃", "Superset"), ("?", "QuestionMark"), ("-", "Minus"), ("<", "LessThan"), (">", "GreaterThan"), ("/", "Slash"),
];

const KEYWORDS: &[(&str, &str)] = &[
    ("let", "Let"), ("axiom", "Axiom"), ("define", "Define"), ("theorem", "Theorem"), ("type", "Type"), ("forall", "ForAll"), ("exists", "Exists"), ("if", "If"), ("by", "By"),
    ("function", "Function"), ("structure", "Structure"), ("import", "Import"), ("true", "True"), ("false", "False"), ("else", "Else"), ("class", "Class"), ("attributes", "Attributes"),
    ("numerals", "Numerals"), ("from", "From"), ("solve", "Solve"), ("satisfy", "Satisfy"), ("and", "And"), ("or", "Or"), ("not", "Not"), ("self", "SelfToken"), ("inductive", "Inductive"),
    ("match", "Match"), ("choose", "Choose"), ("constraint", "Constraint"), ("implies", "Implies"), ("local", "Local"), ("lemma", "Lemma"), ("typeclass", "Typeclass"),
    ("instance", "Instance"), ("extends", "Extends"), ("iff", "Iff"), ("lib", "Lib"), ("transport", "Transport"),
];

#[derive(Debug, PartialEq, Clone)]
struct Tok { kind: String, text: String, line: u32, from: u32, to: u32 }

fn utf16(s: &str) -> u32 { s.chars().map(|c| if (c as u32) > 0xFFFF { 2 } else { 1 }).sum() }

/// The token rules: the longest token first; a comment runs to the end of its line and ends it.
fn reference(text: &str, start: u32) -> Vec<Tok> {
    let mut out = vec![];
    let mut lines: Vec<&str> = text.split('\n').collect();
    let complete = lines.len() - 1;
    if lines.last() == Some(&"") {
        lines.pop();
    }
    for (n, line) in lines.into_iter().enumerate() {
        let line = if n < complete { line.strip_suffix('\r').unwrap_or(line) } else { line };
        let mut at = 0;
        let mut first = true;
        let mut push = |kind: &str, a: usize, b: usize| out.push(Tok { kind: kind.into(), text: line[a..b].into(), line: start + n as u32, from: utf16(&line[..a]), to: utf16(&line[..b]) });
        while at < line.len() {
            let rest = &line[at..];
            let c = rest.chars().next().unwrap();
            let run = |f: &dyn Fn(char) -> bool| rest.find(|c| !f(c)).unwrap_or(rest.len());
            if c == ' ' || c == '\t' {
                at += 1;
                continue;
            }
            let (kind, len) = if rest.starts_with("//") {
                (if rest.starts_with("///") && first { "DocComment" } else { "NewLine" }, rest.len())
            } else if c.is_ascii_digit() {
                ("Numeral", run(&|c| c.is_ascii_digit()))
            } else if c == '_' || c.is_alphanumeric() {
                let len = run(&|c| c == '_' || c.is_alphanumeric());
                (KEYWORDS.iter().find(|k| k.0 == &rest[..len]).map_or("Identifier", |k| k.1), len)
            } else if let Some(s) = SYMBOLS.iter().find(|s| rest.starts_with(s.0)) {
                (s.1, s.0.len())
            } else {
                ("Invalid", c.len_utf8())
            };
            push(kind, at, at + len);
            at += len;
            first = false;
        }
        push("NewLine", line.len(), line.len());
    }
    out
}

fn actual(text: &str, start: u32) -> Vec<Tok> {
    Token::scan_with_start_line(text, start)
        .iter()
        .map(|t| {
            let r = t.range();
            assert_eq!(r.start.line, r.end.line);
            Tok { kind: format!("{:?}", t.token_type), text: t.text().into(), line: r.start.line, from: r.start.character, to: r.end.character }
        })
        .collect()
}

fn scan(run: &Run) {
    let alphabet: Vec<&str> = "a Z 0 _ é 𝔸 / - > < = ! . , : ( ] { ? ∪ ∈ # +".split(' ').chain([" ", "\t", "\n", "\r", "\u{a0}"]).collect();
    let words: Vec<&str> = KEYWORDS.iter().map(|k| k.0).chain(SYMBOLS.iter().map(|s| s.0)).chain(["x", "lets", "Bool", "le", "10", "007", "// c", "/// d", "//// e", "///f", "\n", " ", "\r\n", "𝔸b", "$"]).collect();
    let one = |text: &str, start: u32| {
        run.add("texts_scanned", 1);
        match guard(|| (actual(text, start), reference(text, start))) {
            Err(p) => run.violation(&format!("scan panic {text:?}"), p),
            Ok((a, r)) if a != r => run.violation(&format!("scan {text:?}"), format!("tokens {a:?}\nexpected {r:?}")),
            Ok((a, _)) => {
                for t in Token::scan(text).iter().filter(|t| t.token_type == TokenType::DocComment) {
                    let want = t.text()[3..].strip_prefix(' ').unwrap_or(&t.text()[3..]).to_string();
                    if t.doc_comment_content() != want {
                        run.violation(&format!("doc comment {text:?}"), format!("{:?}", t.doc_comment_content()));
                    }
                }
                run.add("tokens", a.len() as u64);
            }
        }
    };
    let deep = if run.thorough() { 5 } else { 4 };
    parallel(alphabet.len() * alphabet.len(), |n| {
        let (a, b) = (alphabet[n / alphabet.len()], alphabet[n % alphabet.len()]);
        let mut layer = vec![format!("{a}{b}")];
        if n < alphabet.len() {
            one(alphabet[n], 0);
        }
        one(&layer[0], 7);
        for _ in 2..deep {
            let mut next = vec![];
            for s in &layer {
                for c in &alphabet {
                    next.push(format!("{s}{c}"));
                }
            }
            for s in &next {
                one(s, 0);
            }
            layer = next;
        }
    });
    parallel(words.len(), |i| {
        for b in &words {
            one(&format!("{}{b}", words[i]), 0);
            for c in &words {
                one(&format!("{}{b}{c}", words[i]), 3);
                one(&format!("{} {b} {c}", words[i]), 0);
            }
        }
    });
    one("", 0);
}

// ---------------------------------------------------------------- trees

/// What an expression says, fully bracketed. `groups`: keep the source's own brackets.
fn tree(e: &Expression, groups: bool) -> String {
    let t = |e: &Expression| tree(e, groups);
    let decls = |d: &[Declaration]| d.iter().map(|d| match d { Declaration::Typed(n, ty) => format!("{}: {}", n.text(), tree(ty, groups)), Declaration::SelfToken(n) => n.text().to_string() }).collect::<Vec<_>>().join(", ");
    match e {
        Expression::Singleton(a) => a.text().to_string(),
        Expression::Unary(o, a) if o.token_type.is_postfix() => format!("⟨{} {}⟩", t(a), o.text()),
        Expression::Unary(o, a) => format!("⟨{} {}⟩", o.text(), t(a)),
        Expression::Binary(a, o, b) => format!("⟨{} {} {}⟩", t(a), o.text(), t(b)),
        Expression::Concatenation(a, b) => format!("⟨{} @ {}⟩", t(a), tree(b, true)),
        Expression::Grouping(l, a, r) if groups || l.token_type != TokenType::LeftParen || matches!(**a, Expression::Singleton(ref s) if s.token_type.is_operator_ref()) => format!("{}{}{}", l.text(), t(a), r.text()),
        Expression::Grouping(_, a, _) => t(a),
        Expression::Binder(b, d, body, _) => format!("⟨{} ({}) {}⟩", b.text(), decls(d), t(body)),
        Expression::GenericBinder(b, p, d, body, _) => format!("⟨{} [{}] ({}) {}⟩", b.text(), p.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(", "), decls(d), t(body)),
        Expression::IfThenElse(_, c, a, b, _) => format!("⟨if {} then {} else {}⟩", t(c), t(a), b.as_ref().map_or("-".into(), |b| t(b))),
        Expression::Match(_, s, cases, _) => format!("⟨match {} {}⟩", t(s), cases.iter().map(|(p, e)| format!("| {} => {}", t(p), t(e))).collect::<Vec<_>>().join(" ")),
        Expression::Block(items, body, _) => {
            use acorn::syntax::expression::LocalBlockItem::*;
            let one = |i: &acorn::syntax::expression::LocalBlockItem| match i {
                Let(l) => format!("let {}: {} = {}{}", l.name_token.text(), l.type_expr.as_ref().map_or("-".into(), |x| t(x)), t(&l.value), l.body.as_ref().map_or("".into(), |b| format!(" by {}", b.statements.iter().map(|s| s.to_string()).collect::<Vec<_>>().join("; ")))),
                Satisfy(l) => format!("let {}: {} satisfy {}{}", l.name_token.text(), t(&l.type_expr), t(&l.condition), l.body.as_ref().map_or("".into(), |b| format!(" by {}", b.statements.iter().map(|s| s.to_string()).collect::<Vec<_>>().join("; ")))),
                Destructuring(l) => format!("let {}({}) = {}", t(&l.function), l.args.iter().map(|a| a.text()).collect::<Vec<_>>().join(", "), t(&l.value)),
            };
            format!("⟨{}; {}⟩", items.iter().map(one).collect::<Vec<_>>().join("; "), t(body))
        }
    }
}

fn parse(text: &str, ty: bool) -> Result<Expression, String> {
    let mut it = TokenIter::new(Token::scan(text));
    let end = Terminator::Is(TokenType::NewLine);
    let r = if ty { Expression::parse_type(&mut it, end) } else { Expression::parse_value(&mut it, end) };
    r.map(|(e, _)| e).map_err(|e| e.to_string())
}

#[derive(Clone, Debug)]
enum Item { Leaf(String), Pre(&'static str), Post, Bin(&'static str) }

/// (operator, strength); a stronger operator takes its operands first.
const BIN: &[(&str, i32)] = &[
    (".", 14), ("*", 12), ("/", 12), ("∩", 12), ("+", 11), ("-", 11), ("∪", 11), ("∖", 11), ("%", 10),
    (">", 9), ("∈", 9), ("∉", 9), ("∋", 9), ("∌", 9), ("⊆", 9), ("⊇", 9), ("⊂", 9), ("⊃", 9),
    ("<", 8), (">=", 8), ("<=", 8), ("=", 7), ("!=", 7), ("or", 5), ("and", 5), ("iff", 4), ("implies", 3), ("->", 3), (",", 1),
];
const PRE: &[(&str, i32)] = &[("not", 6), ("transport", 6), ("-", 13)];

fn strength(op: &str) -> i32 { BIN.iter().find(|b| b.0 == op).unwrap().1 }

/// The weakest operator splits the sequence, the last one among equals (`->`: the first). A prefix
/// operator counts only when nothing stands before it, `?` only when nothing follows it.
fn group(items: &[Item], ty: bool) -> Option<String> {
    let n = items.len();
    if n == 1 {
        return match &items[0] { Item::Leaf(s) => Some(s.clone()), _ => None };
    }
    let mut best: Option<(i32, usize)> = None;
    for (i, item) in items.iter().enumerate() {
        let s = match item {
            Item::Bin(op) => strength(op),
            Item::Pre(op) if i == 0 => PRE.iter().find(|p| p.0 == *op).unwrap().1,
            Item::Post if i + 1 == n => 13,
            _ => continue,
        };
        let first = matches!(item, Item::Bin("->"));
        if best.map_or(true, |(b, _)| s < b || (s == b && !first)) {
            best = Some((s, i));
        }
    }
    let (_, i) = best?;
    match &items[i] {
        Item::Pre(op) => Some(format!("⟨{op} {}⟩", group(&items[1..], ty)?)),
        Item::Post => Some(format!("⟨{} ?⟩", group(&items[..i], ty)?)),
        Item::Bin(op) if i > 0 && i + 1 < n && (ty || *op != "->") => Some(format!("⟨{} {op} {}⟩", group(&items[..i], ty)?, group(&items[i + 1..], ty)?)),
        _ => None,
    }
}

fn expected(items: &[Item], ty: bool) -> Option<String> {
    for w in items.windows(2) {
        if matches!((&w[0], &w[1]), (Item::Bin(_) | Item::Pre(_), Item::Bin(_))) {
            return None;
        }
    }
    let mut seen = false;
    for i in items {
        match i {
            Item::Bin(",") => seen = false,
            Item::Bin("implies") if seen => return None,
            Item::Bin("implies") => seen = true,
            _ => {}
        }
    }
    group(items, ty)
}

fn text_of(items: &[Item], spaced: bool) -> String {
    let mut out = String::new();
    for i in items {
        match i {
            Item::Leaf(s) => out += s,
            Item::Pre("-") => out += if spaced { "- " } else { "-" },
            Item::Pre(p) => out += &format!("{p} "),
            Item::Post => out += "?",
            Item::Bin(".") => out += ".",
            Item::Bin(b) => out += &format!(" {b} "),
        }
    }
    out
}

fn ambiguous(items: &[Item]) -> bool {
    let lt = items.iter().position(|i| matches!(i, Item::Bin("<")));
    lt.map_or(false, |l| items[l..].iter().any(|i| matches!(i, Item::Bin(">"))))
}

/// A parsed expression covers its text and prints as text that reads back as the same tree.
fn reprint(run: &Run, text: &str, e: &Expression, ty: bool) {
    run.add("evaluations", 1);
    let r = e.range();
    let (want_from, want_to) = (utf16(&text[..text.len() - text.trim_start().len()]), utf16(text.trim_end()));
    if !text.contains('\n') && (r.start.character, r.end.character) != (want_from, want_to) {
        run.violation(&format!("range {text:?}"), format!("{r:?}"));
    }
    let want = tree(e, true);
    let printed = e.to_string();
    match parse(&printed.replace('\n', "\n "), ty).or_else(|_| parse_block(&printed)) {
        Ok(b) if tree(&b, true) == want => {}
        Ok(b) => run.violation(&format!("print {text:?}"), format!("printed {printed:?}\nreads as {}\ninstead of {want}", tree(&b, true))),
        Err(m) => run.violation(&format!("print {text:?}"), format!("printed {printed:?}\ndoes not read back: {m}")),
    }
}

/// Expressions over several lines only stand inside braces.
fn parse_block(text: &str) -> Result<Expression, String> {
    let mut it = TokenIter::new(Token::scan(&format!("{text}\n}}")));
    Expression::parse_value(&mut it, Terminator::Is(TokenType::RightBrace)).map(|(e, _)| e).map_err(|e| e.to_string())
}

fn check_items(run: &Run, items: &[Item], ty: bool, paren: bool) {
    if ambiguous(items) {
        run.add("skipped_angle_brackets", 1);
        return;
    }
    run.add("states", 1);
    let want = expected(items, ty);
    for spaced in [false, true] {
        let mut text = text_of(items, spaced);
        let mut want = want.clone();
        if paren {
            text = format!("f({text})");
            want = want.map(|w| format!("⟨f @ ({w})⟩"));
        }
        let got = match guard(|| parse(&text, ty)) {
            Err(p) => { run.violation(&format!("panic {text:?}"), p); continue }
            Ok(g) => g,
        };
        match (&got, &want) {
            (Ok(e), Some(w)) if &tree(e, true) == w => { run.add("grouped", 1); reprint(run, &text, e, ty) }
            (Err(_), None) => run.add("rejected", 1),
            (Ok(e), _) => run.violation(&format!("grouping {text:?}"), format!("read as {}\nexpected {want:?}", tree(e, true))),
            (Err(m), _) => run.violation(&format!("grouping {text:?}"), format!("rejected: {m}\nexpected {want:?}")),
        }
        if !items.iter().any(|i| matches!(i, Item::Pre("-"))) { break }
    }
}

fn ops(run: &Run) {
    let leaf = |s: &str| Item::Leaf(s.into());
    let operands = ["a", "b", "c", "d", "e"];
    let bins: Vec<&'static str> = BIN.iter().map(|b| b.0).collect();
    // One and two operators with every prefix and postfix; "" is none.
    let marks: Vec<(Vec<Item>, bool)> = {
        let mut m = vec![];
        for p in [vec![], vec!["not"], vec!["-"], vec!["transport"], vec!["not", "-"], vec!["-", "-"], vec!["-", "not"], vec!["not", "not"]] {
            for q in [false, true] {
                m.push((p.iter().map(|p| Item::Pre(p)).collect(), q));
            }
        }
        m
    };
    let put = |items: &mut Vec<Item>, m: &(Vec<Item>, bool), s: &str| {
        items.extend(m.0.iter().cloned());
        items.push(leaf(s));
        if m.1 {
            items.push(Item::Post);
        }
    };
    for m in &marks {
        let mut v = vec![];
        put(&mut v, m, "a");
        check_items(run, &v, false, false);
        for op in &bins {
            for k in &marks {
                let mut v = vec![];
                put(&mut v, m, "a");
                v.push(Item::Bin(op));
                put(&mut v, k, "b");
                check_items(run, &v, false, false);
                check_items(run, &v, false, true);
            }
        }
    }
    parallel(bins.len() * bins.len(), |n| {
        let (x, y) = (bins[n / bins.len()], bins[n % bins.len()]);
        for (i, j, k) in itertools3(marks.len()) {
            // the first six marks thoroughly, the rest when alone
            if !run.thorough() && [i, j, k].iter().filter(|x| **x >= 6).count() > 1 {
                continue;
            }
            let mut v = vec![];
            put(&mut v, &marks[i], "a");
            v.push(Item::Bin(x));
            put(&mut v, &marks[j], "b");
            v.push(Item::Bin(y));
            put(&mut v, &marks[k], "c");
            check_items(run, &v, false, false);
        }
        for z in &bins {
            let v: Vec<Item> = vec![leaf("a"), Item::Bin(x), leaf("b"), Item::Bin(y), leaf("c"), Item::Bin(z), leaf("d")];
            check_items(run, &v, false, true);
            for w in ["*", "-", "<", "=", "and", "iff", "implies", ","] {
                let mut v = v.clone();
                v.extend([Item::Bin(w), leaf("e")]);
                check_items(run, &v, false, true);
            }
        }
        // operands of every kind
        for o in OPERANDS {
            for p in OPERANDS {
                let (a, b) = (parse_tree(o), parse_tree(p));
                for neg in [false, true] {
                    let mut text = format!("{o} {x} b {y} {p}");
                    let mut items = vec![Item::Leaf(a.clone()), Item::Bin(x), leaf("b"), Item::Bin(y), Item::Leaf(b.clone())];
                    if neg {
                        text = format!("not {text}");
                        items.insert(0, Item::Pre("not"));
                    }
                    if [x, y].contains(&".") || [x, y].contains(&"<") {
                        continue;
                    }
                    run.add("states", 1);
                    let (got, want) = (parse(&text, false), expected(&items, false));
                    match (&got, &want) {
                        (Ok(e), Some(w)) if &tree(e, true) == w => reprint(run, &text, e, false),
                        (Err(_), None) => {}
                        _ => run.violation(&format!("operands {text:?}"), format!("{:?}\nexpected {want:?}", got.map(|e| tree(&e, true)))),
                    }
                }
            }
        }
    });
    // types
    let type_ops = ["->", ","];
    for n in 1..=5usize {
        for bits in 0..1 << n {
            let mut v = vec![leaf("A")];
            for i in 0..n {
                v.push(Item::Bin(type_ops[bits >> i & 1]));
                v.push(leaf(["B", "C", "D", "E", "F"][i]));
            }
            check_items(run, &v, true, false);
        }
    }
    // a selection and the application after it go from left to right
    let tails = ["", ".b", "(c)", "(c, d)", "[T]", "[T, U]", ".match", ".2"];
    for a in tails {
        for b in tails {
            for c in tails {
                for d in tails {
                    let text = format!("a{a}{b}{c}{d}");
                    let mut want = "a".to_string();
                    for t in [a, b, c, d].into_iter().filter(|t| !t.is_empty()) {
                        want = match t {
                            "(c, d)" => format!("⟨{want} @ (⟨c , d⟩)⟩"),
                            "[T, U]" => format!("⟨{want} @ [⟨T , U⟩]⟩"),
                            t if t.starts_with('.') => format!("⟨{want} . {}⟩", &t[1..]),
                            t => format!("⟨{want} @ {t}⟩"),
                        };
                    }
                    run.add("states", 1);
                    match parse(&text, false) {
                        Ok(e) if tree(&e, true) == want => reprint(run, &text, &e, false),
                        r => run.violation(&format!("tail {text:?}"), format!("{:?}\nexpected {want}", r.map(|e| tree(&e, true)))),
                    }
                }
            }
        }
    }
    let _ = operands;
}

fn itertools3(n: usize) -> impl Iterator<Item = (usize, usize, usize)> { (0..n * n * n).map(move |x| (x / n / n, x / n % n, x % n)) }

const OPERANDS: &[&str] = &[
    "a", "0", "true", "f(x)", "f(x, y)(z)", "g[T]", "g[T](x)", "a.b", "a.b(c).d", "(a)", "(a + b)", "(=)", "forall(x: T) { x = y }", "exists(x: T, y: U -> V) { x and y }",
    "function(x: T) { x }", "function[T](x: T) { x }", "if p { a } else { b }", "match a { C.c(b) { b } C.d { e } }", "lib(m).a", "choose(x: T) { x = y }",
];

fn parse_tree(s: &str) -> String { tree(&parse(s, false).unwrap_or_else(|e| panic!("operand {s}: {e}")), true) }

// ---------------------------------------------------------------- trees built by the printers

fn built(run: &Run) {
    use TokenType::*;
    let bins = [Dot, Asterisk, Intersection, Plus, Minus, Percent, GreaterThan, ElemOf, LessThan, Equals, NotEquals, Or, And, Iff, Implies];
    let pres = [Not, Minus, QuestionMark];
    let id = |s: &str| Expression::generate_identifier(s);
    let leaves = |s: &str| vec![id(s), Expression::Concatenation(Box::new(id("f")), Box::new(Expression::generate_paren_grouping(vec![id(s), id("y")]))), id(s).add_dot_str("b")];
    let mut layers: Vec<Vec<Expression>> = vec![leaves("a")];
    for d in 0..3 {
        let mut next = vec![];
        let all: Vec<&Expression> = layers.iter().flatten().collect();
        let last: Vec<&Expression> = layers[d].iter().collect();
        for e in &last {
            for p in pres {
                next.push(Expression::generate_unary(p, (*e).clone()));
            }
        }
        // trees with d+1 operators
        for i in 0..=d {
            let (l, r) = (&layers[i], &layers[d - i]);
            let small = d >= 2;
            for a in l.iter() {
                for b in r.iter() {
                    for op in bins {
                        if op == Dot || (small && matches!(op, Intersection | Percent | ElemOf | NotEquals | And)) {
                            continue;
                        }
                        next.push(Expression::generate_binary(a.clone(), op, b.clone()));
                    }
                }
            }
        }
        let _ = all;
        if d == 1 {
            // keep depth three within reach: plain leaves only
            next.retain(|e| !e.to_string().contains('f') && !e.to_string().contains(".b"));
        }
        layers.push(next);
        if d == 0 {
            let keep: Vec<Expression> = layers[1].iter().filter(|e| !e.to_string().contains("f(")).cloned().collect();
            layers[1] = keep;
        }
    }
    let all: Vec<&Expression> = layers.iter().flatten().collect();
    run.add("built_trees", all.len() as u64);
    parallel(all.len().div_ceil(64), |n| {
        for e in all[n * 64..((n + 1) * 64).min(all.len())].iter() {
            let printed = e.to_string();
            if all_angles(&printed) {
                continue;
            }
            run.add("states", 1);
            match parse(&printed, false) {
                Ok(b) if tree(&b, false) == tree(e, false) => run.add("evaluations", 1),
                Ok(b) => run.violation(&format!("built {}", tree(e, false)), format!("printed {printed:?}\nreads as {}", tree(&b, false))),
                Err(m) => run.violation(&format!("built {}", tree(e, false)), format!("printed {printed:?}\n{m}")),
            }
        }
    });
}

fn all_angles(s: &str) -> bool { s.find(" < ").map_or(false, |i| s[i..].contains(" > ")) }

// ---------------------------------------------------------------- statements

const STATEMENTS: &[&str] = &[
    "let a: Nat = b", "let a = b", "let f: Nat -> Nat = axiom", "let f[T]: T -> T = g", "let f[T: Group, U]: (T, U) -> T = axiom", "let 0: Nat = zero", "let a: Nat = if p { b } else { c }",
    "let (a: Nat, b: Nat) satisfy { a = b }", "let a: Nat satisfy { p(a) }",
    "let f(x: Nat) -> y: Nat satisfy { p(x, y) }", "let f[T](x: T) -> y: T satisfy {\n    p(x, y)\n} by {\n    p(x, x)\n}", "let f(x: Nat, y: Nat) -> z: Nat satisfy { q }",
    "let Foo.bar(x, y) = z", "let some(x) = y by {\n    p(x)\n}",
    "define f(x: Nat) -> Nat { x }", "define f[T](x: T, y: T) -> Bool { x = y }", "define f[T: Group](g: T -> T) -> T { g(0) }", "define f(x: Nat) -> Nat {\n    let y = x\n    y + y\n}",
    "define f(x: Nat) -> Nat {\n    match x {\n        Nat.0 {\n            x\n        }\n        Nat.suc(p) {\n            p\n        }\n    }\n}",
    "define f(self, x: Nat) -> Bool { self = x }", "define f(x: Nat) -> Nat {\n    if x = 0 {\n        1\n    } else {\n        x\n    }\n}",
    "theorem foo { p }", "theorem foo(x: Nat) { p(x) }", "theorem { p }", "theorem foo[T](x: T, y: T) {\n    x = y\n} by {\n    p\n    q\n}", "axiom foo { p }", "axiom foo[T: Group](x: T) { x * x = x }", "lemma foo { p implies q }",
    "theorem foo { forall(x: Nat) { exists(y: Nat) { x = y } } }", "theorem foo(f: (Nat, Nat) -> Bool) { f(a, b) or not f(b, a) }",
    "p(x)", "x = y", "not p and q implies r", "forall(x: Nat) { p(x) }", "exists(x: Nat) { p(x) }", "a < b iff not (b <= a)",
    "forall(x: Nat) {\n    p(x)\n    q(x)\n}", "forall(x: Nat, y: Nat -> Bool) {\n    p(x)\n}", "if p {\n    q\n}", "if p {\n    q\n} else {\n    r\n    s\n}", "if p {\n    if q {\n        r\n    } else {\n        s\n    }\n}",
    "type Nat: axiom", "type Foo: Nat -> Bool", "type Pred[T]: T -> Bool",
    "structure Pair {\n    first: Nat\n    second: Nat\n}", "structure Pair[T, U] {\n    first: T\n    second: U\n}", "structure Pos {\n    n: Nat\n} constraint {\n    n > 0\n}", "structure Pos {\n    n: Nat\n    m: Nat\n} constraint {\n    n > m\n} by {\n    1 > 0\n}",
    "inductive Nat {\n    0\n    suc(Nat)\n}", "inductive List[T] {\n    nil\n    cons(T, List[T])\n}", "inductive Tree {\n    leaf\n    node(Nat -> Tree, Tree)\n}",
    "from foo import a", "from foo.bar import a, B, c",
    "attributes Nat {\n    define add(self, x: Nat) -> Nat {\n        x\n    }\n    let 1: Nat = Nat.suc(Nat.0)\n}", "attributes List[T] {\n    define head(self) -> T {\n        axiom\n    }\n}", "attributes G: Group {\n    define sq(self) -> G {\n        self * self\n    }\n}",
    "attributes List[Nat] {\n    define sum(self) -> Nat {\n        0\n    }\n}",
    "numerals Nat",
    "match x {\n    Nat.0 {\n        p\n    }\n    Nat.suc(y) {\n        q(y)\n    }\n}",
    "typeclass G: Group {\n    mul: (G, G) -> G\n    1: G\n    assoc(x: G, y: G) {\n        x * y = y * x\n    }\n}", "typeclass R: Ring extends Group, Monoid {\n    add: (R, R) -> R\n}", "typeclass F: Field extends Ring",
    "instance Nat: Group {\n    let 1: Nat = Nat.0\n    define mul(self, x: Nat) -> Nat {\n        x\n    }\n}", "instance Pair[T: Group, U]: Group {\n    let unit: Pair[T, U] = axiom\n}",
    "/// A doc comment",
];

/// The words of a text: layout and comments do not matter.
fn words(text: &str) -> Vec<String> { Token::scan(text).iter().filter(|t| t.token_type != TokenType::NewLine).map(|t| t.text().to_string()).collect() }

fn statements(run: &Run) {
    let in_block = |s: &str| ["p(x)", "x = y", "not p", "a <", "exists", "if ", "match", "forall"].iter().any(|p| s.starts_with(p));
    let check = |s: &str, block: bool| {
        run.add("states", 1);
        run.add("statements", 1);
        let key = |k: &str| format!("statement {k} {s:?}");
        let a = match guard(|| Statement::parse_str_with_options(s, block)) {
            Err(p) => return run.violation(&key("panic"), p),
            Ok(Err(e)) => return run.violation(&key("rejected"), e.to_string()),
            Ok(Ok(a)) => a,
        };
        let r = a.range();
        let lines: Vec<&str> = s.split('\n').collect();
        // The code gives an if or match statement the range of one of its branches; nothing here relies on where that ends.
        let branches = s.starts_with("if ") || s.starts_with("match ");
        if (r.start.line, r.start.character) != (0, 0) || !branches && (r.end.line, r.end.character) != (lines.len() as u32 - 1, utf16(lines[lines.len() - 1])) {
            run.violation(&key("range"), format!("{r:?}"));
        }
        let printed = a.to_string();
        let source = words(s);
        let shown = words(&printed);
        let shown: Vec<String> = if s.starts_with("numerals") { std::iter::once("numerals".to_string()).chain(shown.into_iter().skip(1)).collect() } else { shown };
        if shown != source {
            run.violation(&key("words"), format!("printed {printed:?}"));
            return;
        }
        if s.starts_with("numerals") {
            return;
        }
        match Statement::parse_str_with_options(&printed, block) {
            Ok(b) if b.to_string() == printed => run.add("evaluations", 1),
            Ok(b) => run.violation(&key("fixpoint"), format!("printed {printed:?}\nthen {:?}", b.to_string())),
            Err(e) => run.violation(&key("reprint"), format!("printed {printed:?}\n{e}")),
        }
    };
    for s in STATEMENTS {
        check(s, in_block(s));
    }
    // every block statement inside every block
    let inner: Vec<&str> = STATEMENTS.iter().copied().filter(|s| in_block(s) || (s.starts_with("let ") && !s.contains("let f") && !s.contains("0:") && !s.contains("} by"))).collect();
    for (head, foot) in [("forall(x: Nat) {\n", "\n}"), ("if p {\n", "\n}"), ("if p {\n    q\n} else {\n", "\n}"), ("match x {\n    Nat.0 {\n", "\n    }\n}"), ("theorem foo {\n    p\n} by {\n", "\n}"), ("let some(x) = y by {\n", "\n}")] {
        for a in &inner {
            check(&format!("{head}{a}{foot}"), !head.starts_with("theorem"));
            for b in &inner {
                check(&format!("{head}{a}\n{b}{foot}"), !head.starts_with("theorem"));
            }
        }
    }
    // a file is the sequence of its statements, whatever stands between them
    for a in STATEMENTS {
        for b in STATEMENTS.iter().filter(|b| !in_block(b)) {
            if in_block(a) || a.starts_with("///") {
                continue;
            }
            for gap in ["\n", "\n\n\n", "\n// note\n", "\n/// doc\n"] {
                let text = format!("{a}{gap}{b}\n");
                run.add("states", 1);
                let mut it = TokenIter::new(Token::scan(&text));
                let mut got = vec![];
                let bad = loop {
                    match guard(|| Statement::parse(&mut it, false, false)) {
                        Err(p) => break Some(p),
                        Ok(Err(e)) => break Some(e.to_string()),
                        Ok(Ok((Some(s), _))) => if !matches!(s.statement, acorn::syntax::statement::StatementInfo::DocComment(_)) || b.starts_with("///") || got.len() > 2 { got.push(s.to_string()) },
                        Ok(Ok((None, _))) => break None,
                    }
                };
                let want: Vec<String> = [*a, *b].iter().map(|s| Statement::parse_str(s).unwrap().to_string()).collect();
                if gap.contains("///") && b.starts_with("///") { continue }
                if bad.is_some() || got != want {
                    run.violation(&format!("file {text:?}"), format!("{got:?} {bad:?}"));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- values

struct World { name: &'static str, text: &'static str, base: &'static [(&'static str, &'static [&'static str])], rules: &'static [(&'static str, &'static str)] }

/// Rules: (type, template) where `$T` stands for any expression of type T.
const WORLDS: &[World] = &[
    World {
        name: "numbers",
        text: "inductive Nat {\n    0\n    suc(Nat)\n}\nattributes Nat {\n    let 1: Nat = Nat.suc(Nat.0)\n    define add(self, x: Nat) -> Nat { x }\n    define sub(self, x: Nat) -> Nat { x }\n    define mul(self, x: Nat) -> Nat { x }\n    define div(self, x: Nat) -> Nat { x }\n    define mod(self, x: Nat) -> Nat { x }\n    define neg(self) -> Nat { self }\n    define lt(self, x: Nat) -> Bool { x = self }\n    define lte(self, x: Nat) -> Bool { x = self }\n    define gt(self, x: Nat) -> Bool { x = self }\n    define gte(self, x: Nat) -> Bool { x = self }\n    define read(self, x: Nat) -> Nat { x }\n    define sq(self) -> Nat { self }\n    define both(self, x: Nat, y: Nat) -> Bool { x = y }\n    let two: Nat = Nat.suc(Nat.1)\n}\nnumerals Nat\nlet a: Nat = axiom\nlet f: Nat -> Nat = axiom\nlet g: (Nat, Nat) -> Nat = axiom\nlet h: Nat -> Nat -> Nat = axiom\nlet q: Bool = axiom\nlet rel: (Nat, Nat) -> Bool = axiom\nlet ap: ((Nat -> Nat), Nat) -> Nat = axiom\n",
        base: &[("Nat", &["a", "0", "1", "Nat.two"]), ("Bool", &["q"]), ("Nat -> Nat", &["f", "Nat.suc", "Nat.neg"])],
        rules: &[
            ("Nat", "$Nat + $Nat"), ("Nat", "$Nat - $Nat"), ("Nat", "$Nat * $Nat"), ("Nat", "$Nat / $Nat"), ("Nat", "$Nat % $Nat"), ("Nat", "-$Nat"), ("Nat", "f($Nat)"), ("Nat", "g($Nat, $Nat)"), ("Nat", "h($Nat)($Nat)"), ("Nat", "h($Nat, $Nat)"),
            ("Nat", "$Nat.suc"), ("Nat", "$Nat.sq"), ("Nat", "$Nat.read($Nat)"), ("Nat", "ap($Nat -> Nat, $Nat)"), ("Nat", "if $Bool { $Nat } else { $Nat }"), ("Nat", "match $Nat {\n Nat.0 { a }\n Nat.suc(k~) { k~ + $Nat }\n}"),
            ("Bool", "$Nat = $Nat"), ("Bool", "$Nat != $Nat"), ("Bool", "$Nat < $Nat"), ("Bool", "$Nat <= $Nat"), ("Bool", "$Nat > $Nat"), ("Bool", "$Nat >= $Nat"), ("Bool", "not $Bool"), ("Bool", "$Bool and $Bool"), ("Bool", "$Bool or $Bool"), ("Bool", "$Bool implies $Bool"), ("Bool", "$Bool iff $Bool"), ("Bool", "$Bool = $Bool"), ("Bool", "$Bool != $Bool"),
            ("Bool", "forall(x~: Nat) { x~ = $Nat }"), ("Bool", "exists(x~: Nat) { rel(x~, $Nat) and $Bool }"), ("Bool", "forall(x~: Nat, y~: Bool) { y~ implies rel(x~, $Nat) }"), ("Bool", "$Nat.both($Nat, $Nat)"), ("Bool", "forall(z~: Nat -> Nat) { z~(a) = $Nat }"),
            ("Nat -> Nat", "function(x~: Nat) { $Nat }"), ("Nat -> Nat", "function(x~: Nat) { x~ + $Nat }"), ("Nat -> Nat", "h($Nat)"), ("Nat -> Nat", "g($Nat)"), ("Nat -> Nat", "$Nat.add"), ("Bool", "$Nat -> Nat = $Nat -> Nat"), ("Nat -> Nat", "if $Bool { $Nat -> Nat } else { f }"),
        ],
    },
    World {
        name: "generic",
        text: "inductive Box[T] {\n    none\n    some(T)\n}\nstructure Pair[T, U] {\n    first: T\n    second: U\n}\nattributes Box[T] {\n    define or_else(self, x: T) -> T { x }\n    define swap(self, x: Box[T]) -> Box[T] { x }\n}\ntypeclass M: Mag {\n    mul: (M, M) -> M\n    unit: M\n}\nattributes M: Mag {\n    define sq(self) -> M { self * self }\n}\ninductive Col {\n    red\n    green\n}\ninstance Col: Mag {\n    define mul(self, x: Col) -> Col { x }\n    let unit: Col = Col.red\n}\ndefine id[T](x: T) -> T { x }\ndefine twice[T](f: T -> T, x: T) -> T { f(f(x)) }\nlet c: Col = axiom\nlet bc: Box[Col] = axiom\nlet p: Pair[Col, Bool] = axiom\nlet bb: Box[Bool] = axiom\nlet pick[T]: Box[T] -> T = axiom\n",
        base: &[("Col", &["c", "Col.red", "Mag.unit[Col]"]), ("Box[Col]", &["bc", "Box.none[Col]", "Box[Col].none"]), ("Bool", &["true"]), ("Pair[Col, Bool]", &["p"]), ("Col -> Col", &["id[Col]", "Col.mul(c)"])],
        rules: &[
            ("Col", "$Col * $Col"), ("Col", "$Col.sq"), ("Col", "id($Col)"), ("Col", "twice($Col -> Col, $Col)"), ("Col", "$Box[Col].or_else($Col)"), ("Col", "$Pair[Col, Bool].first"), ("Col", "pick($Box[Col])"), ("Col", "pick(Box.some($Col))"),
            ("Box[Col]", "Box.some($Col)"), ("Box[Col]", "$Box[Col].swap($Box[Col])"), ("Box[Col]", "id($Box[Col])"), ("Pair[Col, Bool]", "Pair.new($Col, $Bool)"), ("Bool", "$Pair[Col, Bool].second"), ("Bool", "$Box[Col] = $Box[Col]"), ("Bool", "$Col = $Col"), ("Bool", "pick(Box.some($Bool))"),
            ("Bool", "not $Bool"), ("Bool", "$Bool and $Bool"), ("Bool", "forall(x~: Box[Col]) { x~ = $Box[Col] }"), ("Bool", "exists(x~: Pair[Col, Bool]) { x~.second and $Bool }"), ("Bool", "id($Bool)"), ("Bool", "$Col -> Col = $Col -> Col"),
            ("Col -> Col", "function(x~: Col) { x~ * $Col }"), ("Col -> Col", "id($Col -> Col)"), ("Col -> Col", "twice[Col]($Col -> Col)"), ("Col", "match $Box[Col] {\n Box.none { c }\n Box.some(k~) { k~ * $Col }\n}"), ("Bool", "match $Col {\n Col.red { $Bool }\n Col.green { true }\n}"),
            ("Box[Col]", "if $Bool { $Box[Col] } else { $Box[Col] }"),
        ],
    },
    World {
        name: "options",
        text: "inductive Opt[T] {\n    none\n    some(T)\n}\ntype Num: axiom\nattributes Num {\n    define add(self, x: Num) -> Num { x }\n    define neg(self) -> Num { self }\n    define half(self) -> Opt[Num] { Opt.none[Num] }\n    define sub(self, x: Num) -> Num { x }\n}\nlet n: Num = axiom\nlet f: Num -> Opt[Num] = axiom\nlet o: Opt[Num] = axiom\nlet q: Bool = axiom\nlet two: (Num, Num) -> Opt[Num] = axiom\n",
        base: &[("Num", &["n"]), ("Opt[Num]", &["o", "Opt.none[Num]"]), ("Bool", &["q"])],
        rules: &[
            ("Num", "$Opt[Num]?"), ("Num", "$Num + $Num"), ("Num", "-$Num"), ("Num", "$Num - $Num"), ("Opt[Num]", "$Num.half"), ("Opt[Num]", "f($Num)"), ("Opt[Num]", "two($Num, $Num)"), ("Opt[Num]", "Opt.some($Num)"), ("Bool", "$Num = $Num"), ("Bool", "$Opt[Num] = $Opt[Num]"), ("Bool", "not $Bool"), ("Bool", "$Bool and $Bool"),
            ("Num", "if $Bool { $Num } else { $Num }"), ("Opt[Num]", "if $Bool { $Opt[Num] } else { $Opt[Num] }"), ("Bool", "exists(x~: Num) { $Opt[Num] = Opt.some(x~) }"),
        ],
    },
    World {
        name: "sets",
        text: "type Elt: axiom\nstructure Set {\n    contains: Elt -> Bool\n}\nattributes Set {\n    define union(self, x: Set) -> Set { x }\n    define intersection(self, x: Set) -> Set { x }\n    define difference(self, x: Set) -> Set { x }\n    define subset_eq(self, x: Set) -> Bool { x = self }\n    define superset_eq(self, x: Set) -> Bool { x = self }\n    define subset(self, x: Set) -> Bool { x = self }\n    define superset(self, x: Set) -> Bool { x = self }\n    define not_contains(self, e: Elt) -> Bool { not self.contains(e) }\n    define lt(self, x: Set) -> Bool { x = self }\n    define gt(self, x: Set) -> Bool { x = self }\n    define neg(self) -> Set { self }\n}\nlet a: Set = axiom\nlet b: Set = axiom\nlet e: Elt = axiom\nlet q: Bool = axiom\n",
        base: &[("Set", &["a", "b"]), ("Elt", &["e"]), ("Bool", &["q"])],
        rules: &[
            ("Set", "$Set ∪ $Set"), ("Set", "$Set ∩ $Set"), ("Set", "$Set ∖ $Set"), ("Set", "-$Set"), ("Set", "Set.new(function(x~: Elt) { $Bool })"), ("Bool", "$Set ⊆ $Set"), ("Bool", "$Set ⊇ $Set"), ("Bool", "$Set ⊂ $Set"), ("Bool", "$Set ⊃ $Set"), ("Bool", "$Elt ∈ $Set"), ("Bool", "$Elt ∉ $Set"), ("Bool", "$Set.contains($Elt)"), ("Bool", "$Set ∋ $Elt"), ("Bool", "$Set ∌ $Elt"), ("Bool", "$Set < $Set"), ("Bool", "$Set > $Set"),
            ("Bool", "$Set = $Set"), ("Bool", "not $Bool"), ("Bool", "$Bool = $Bool"), ("Bool", "$Bool and $Bool"), ("Bool", "$Bool implies $Bool"), ("Bool", "forall(x~: Elt) { x~ ∈ $Set }"), ("Bool", "exists(x~: Elt) { x~ = $Elt or $Bool }"),
        ],
    },
];

/// Every expression that applies one rule to bases, and every rule with one hole filled by such an
/// expression (every bracket written, so that the source means what is intended).
fn exprs(w: &World, thorough: bool) -> Vec<String> {
    let types: Vec<&str> = w.base.iter().map(|b| b.0).collect();
    let holes = |t: &str| -> Vec<(usize, String)> {
        let mut out = vec![];
        let mut at = 0;
        while let Some(i) = t[at..].find('$') {
            let rest = &t[at + i + 1..];
            let ty = types.iter().filter(|ty| rest.starts_with(**ty)).max_by_key(|ty| ty.len()).unwrap_or_else(|| panic!("{t}"));
            out.push((at + i, ty.to_string()));
            at += i + 1;
        }
        out
    };
    // bound names differ from level to level
    let fill = |t: &str, args: &[String], level: usize| -> String {
        let hs = holes(t);
        let mut out = t.to_string();
        for ((i, ty), a) in hs.iter().zip(args).rev() {
            out = format!("{}{}{}", &out[..*i], a, &out[i + 1 + ty.len()..]);
        }
        out.replace('~', &level.to_string())
    };
    let bases = |ty: &str| w.base.iter().find(|b| b.0 == ty).unwrap().1;
    let wrap = |s: &str| if s.chars().all(|c| c.is_alphanumeric()) { s.to_string() } else { format!("({s})") };
    let simple = |t: &str, all: bool| -> Vec<String> {
        let hs = holes(t);
        let mut rows: Vec<Vec<String>> = vec![vec![]];
        for (k, (_, ty)) in hs.iter().enumerate() {
            let choices: Vec<&str> = if all { bases(ty).to_vec() } else { vec![bases(ty)[k % bases(ty).len()]] };
            rows = rows.iter().flat_map(|r| choices.iter().map(move |c| [r.clone(), vec![wrap(c)]].concat())).collect();
        }
        rows.iter().map(|r| fill(t, r, 1)).collect()
    };
    let mut out: Vec<String> = w.base.iter().flat_map(|b| b.1.iter().map(|s| s.to_string())).collect();
    let mut one: Vec<(&str, String)> = vec![];
    for (ty, t) in w.rules {
        out.extend(simple(t, true));
        one.push((ty, simple(t, false).remove(0)));
    }
    let mut two: Vec<(&str, String)> = vec![];
    for (ty, t) in w.rules {
        let hs = holes(t);
        for k in 0..hs.len() {
            for (_, s) in one.iter().filter(|o| o.0 == hs[k].1) {
                let args: Vec<String> = hs.iter().enumerate().map(|(j, (_, ty))| if j == k { format!("({s})") } else { wrap(bases(ty)[0]) }).collect();
                two.push((ty, fill(t, &args, 2)));
            }
        }
    }
    out.extend(two.iter().map(|t| t.1.clone()));
    for (_, t) in w.rules {
        let hs = holes(t);
        for k in 0..hs.len() {
            for (n, (_, s)) in two.iter().filter(|o| o.0 == hs[k].1).enumerate() {
                if !thorough && n % 3 != 0 && t.len() > 12 {
                    continue;
                }
                let args: Vec<String> = hs.iter().enumerate().map(|(j, (_, ty))| if j == k { format!("({s})") } else { wrap(bases(ty)[0]) }).collect();
                out.push(fill(t, &args, 3));
            }
        }
    }
    out
}

/// `not (x = y)` and `x != y` say the same; brackets say nothing.
fn plain(v: &AcornValue) -> AcornValue {
    use AcornValue::*;
    let p = |v: &AcornValue| Box::new(plain(v));
    match v {
        Not(x) => match plain(x) {
            Binary(BinaryOp::Equals, a, b) => Binary(BinaryOp::NotEquals, a, b),
            x => Not(Box::new(x)),
        },
        Grouping(x) => plain(x),
        Binary(op, a, b) => Binary(*op, p(a), p(b)),
        ForAll(t, b) => ForAll(t.clone(), p(b)),
        Exists(t, b) => Exists(t.clone(), p(b)),
        Lambda(t, b) => Lambda(t.clone(), p(b)),
        IfThenElse(c, a, b) => IfThenElse(p(c), p(a), p(b)),
        Application(fa) => AcornValue::apply(plain(&fa.function), fa.args.iter().map(plain).collect()),
        Match(x, cases) => Match(p(x), cases.iter().map(|c| { let mut c = c.clone(); c.pattern = plain(&c.pattern); c.result = plain(&c.result); c }).collect()),
        Try(x, t) => Try(p(x), t.clone()),
        _ => v.clone(),
    }
}

/// Every term of exactly `size` nodes over binders and the operators as functions.
/// Types: B = Bool, N = Elt, F = Bool -> Bool, G = (Bool, Bool) -> Bool, H = (Elt, Elt) -> Bool.
fn bound_terms(ty: char, size: usize, scope: &mut Vec<char>) -> Vec<String> {
    let mut out = vec![];
    let n = scope.len();
    if size == 1 {
        out.extend(scope.iter().enumerate().filter(|(_, t)| **t == ty).map(|(i, _)| format!("v{i}")));
        out.extend(match ty { 'B' => &["q"][..], 'N' => &["e"], 'F' => &["(not)", "fv"], 'G' => &["(and)", "(or)", "(=)", "gv"], _ => &["(=)", "hv"] }.iter().map(|s| s.to_string()));
        return out;
    }
    let mut under = |bound: &[char], ty: char, size: usize| { scope.extend(bound); let r = bound_terms(ty, size, scope); scope.truncate(n); r };
    let pair = |scope: &mut Vec<char>, a: char, b: char, total: usize| -> Vec<(String, String)> {
        (1..total).flat_map(|k| { let r = bound_terms(b, total - k, scope); bound_terms(a, k, scope).into_iter().flat_map(move |l| r.clone().into_iter().map(move |r| (l.clone(), r))) }).collect()
    };
    match ty {
        'B' => {
            out.extend(under(&['B'], 'B', size - 1).iter().map(|b| format!("forall(v{n}: Bool) {{ {b} }}")));
            out.extend(under(&['N'], 'B', size - 1).iter().map(|b| format!("exists(v{n}: Elt) {{ {b} }}")));
            out.extend(bound_terms('B', size - 1, scope).iter().map(|b| format!("not ({b})")));
            out.extend(bound_terms('G', size - 1, scope).iter().map(|g| format!("pg({g})")));
            out.extend(bound_terms('H', size - 1, scope).iter().map(|h| format!("ph({h})")));
            for (l, r) in pair(scope, 'B', 'B', size - 1) {
                for op in ["and", "or", "implies", "="] { out.push(format!("({l}) {op} ({r})")); }
            }
            for (l, r) in pair(scope, 'N', 'N', size - 1) { out.push(format!("{l} = {r}")); }
            for (f, b) in pair(scope, 'F', 'B', size - 1) { out.push(format!("pf({f}, {b})")); }
        }
        'F' => out.extend(under(&['B'], 'B', size - 1).iter().map(|b| format!("function(v{n}: Bool) {{ {b} }}"))),
        'G' => out.extend(under(&['B', 'B'], 'B', size - 1).iter().map(|b| format!("function(v{n}: Bool, v{}: Bool) {{ {b} }}", n + 1))),
        'H' => out.extend(under(&['N', 'N'], 'B', size - 1).iter().map(|b| format!("function(v{n}: Elt, v{}: Elt) {{ {b} }}", n + 1))),
        _ => {}
    }
    out
}

const BINDERS: World = World {
    name: "binders",
    text: "type Elt: axiom\nlet e: Elt = axiom\nlet q: Bool = axiom\nlet fv: Bool -> Bool = axiom\nlet gv: (Bool, Bool) -> Bool = axiom\nlet hv: (Elt, Elt) -> Bool = axiom\nlet pf: (Bool -> Bool, Bool) -> Bool = axiom\nlet pg: ((Bool, Bool) -> Bool) -> Bool = axiom\nlet ph: ((Elt, Elt) -> Bool) -> Bool = axiom\n",
    base: &[],
    rules: &[],
};

fn values(run: &Run) {
    for w in WORLDS.iter().chain([&BINDERS]) {
        let l = acornx::load(w.text).unwrap_or_else(|e| panic!("{}: {e}", w.name));
        let list = if w.name == "binders" {
            (1..=if run.thorough() { 8 } else { 7 }).flat_map(|n| bound_terms('B', n, &mut vec![])).collect()
        } else {
            exprs(w, run.thorough())
        };
        let eval = |text: &str| -> Result<AcornValue, String> {
            let e = parse(text, false).or_else(|_| parse_block(text))?;
            let LoadState::Ok(m) = l.project.get_module_by_id(l.module_id) else { panic!() };
            Evaluator::new(&l.project, m.bindings(), None).evaluate_value(&e, None).map_err(|e| e.to_string())
        };
        for text in list.iter() {
            run.add("states", 1);
            let r = guard(|| {
                let v = match eval(text) { Ok(v) => v, Err(e) => return Err(("unread", e)) };
                let LoadState::Ok(m) = l.project.get_module_by_id(l.module_id) else { panic!() };
                for explicit in [false, true] {
                    let mut g = CodeGenerator::new(m.bindings());
                    if explicit {
                        g = g.with_explicit_numerals();
                    }
                    let code = match g.value_to_code(&v) { Ok(c) => c, Err(e) => return Err(("unprinted", e.to_string())) };
                    match eval(&code) {
                        Ok(b) if plain(&b) == plain(&v) => {}
                        Ok(b) => return Err(("changed", format!("value {v}\nprinted {code}\nreads as {b}"))),
                        Err(e) => return Err(("unreadable", format!("value {v}\nprinted {code}\n{e}"))),
                    }
                }
                Ok(())
            });
            match r {
                Err(p) => run.violation(&format!("value {} panic {text:?}", w.name), p),
                Ok(Ok(())) => { run.add("values_printed", 1); run.add("evaluations", 2) }
                Ok(Err((k, m))) => run.violation(&format!("value {} {k} {text:?}", w.name), m),
            }
        }
        run.add(&format!("values_{}", w.name), list.len() as u64);
    }
}

fn main() {
    let run = Run::new("P14");
    let only = std::env::args().nth(2);
    let want = |s: &str| only.as_deref().map_or(true, |o| o == s);
    for (name, f) in [("scan", scan as fn(&Run)), ("ops", ops), ("built", built), ("statements", statements), ("values", values)] {
        if want(name) {
            let t = run.elapsed();
            if let Err(p) = guard(|| f(&run)) {
                run.violation(&format!("{name} panic"), p);
            }
            eprintln!("{name} {:.1}s", run.elapsed() - t);
        }
    }
    run.sample(json!({"expression": "not a = b and c?", "tree": parse("not a = b and c?", false).map(|e| tree(&e, true)).unwrap_or_default()}));
    run.add("transitions", run.get("states"));
    run.add("traces_validated_against_impl", run.get("states") + run.get("texts_scanned"));
    run.add("distinct_nontrivial", run.get("evaluations"));
    let required: &[&str] = if only.is_some() { &[] } else { &["tokens", "grouped", "rejected", "built_trees", "statements", "values_printed"] };
    run.finish("model_checked", "P14", &["the token rules, the operator table and the statement forms written in mc/src/bin/p14.rs are the language's"], required)
}
