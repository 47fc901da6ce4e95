//! P15: every text is answered, and an editor's questions are answered about what is under the
//! cursor. (1) every one-token and one-character change of small modules that use every form of
//! statement is loaded; (2) every position of what is accepted is asked about; (3) every form of
//! declaration in every form of use, in one module and across modules, against what the name is.
use acorn::module::LoadState;
use acorn::syntax::token::Token;
use mc::{acornx, docs::{DOCS, HOME}, report::*};
use std::collections::BTreeSet;
use serde_json::json;
use std::path::Path;
use tower_lsp::lsp_types::{HoverContents, MarkedString, Position, Range};

fn utf16(s: &str) -> u32 { s.chars().map(|c| c.len_utf16() as u32).sum() }

/// Byte ranges of the words of a text.
fn words(text: &str) -> Vec<(usize, usize)> {
    let mut starts = vec![0];
    starts.extend(text.match_indices('\n').map(|m| m.0 + 1));
    Token::scan(text).iter().filter(|t| t.text() != "\n").map(|t| (starts[t.line_number as usize] + t.start as usize, t.text().len())).map(|(s, n)| (s, s + n)).collect()
}

fn inside(text: &str, r: Range) -> bool {
    let lines: Vec<&str> = text.split('\n').collect();
    // The end of the text counts as a place, also on the line after the last.
    let ok = |p: Position| lines.get(p.line as usize).map_or(p.line as usize == lines.len() && p.character == 0, |l| p.character <= utf16(l) + 1);
    ok(r.start) && ok(r.end) && (r.start.line, r.start.character) <= (r.end.line, r.end.character)
}

/// Loads a text; None if it is rejected or something was wrong.
fn load(run: &Run, key: &str, text: &str) -> Option<acornx::Loaded> {
    run.add("states", 1);
    let r = guard(|| {
        let mut p = acornx::ide_project();
        p.mock("/mock/home.ac", HOME);
        p.mock("/mock/main.ac", text);
        let id = p.load_module_by_name("main").map_err(|e| format!("{e:?}"))?;
        let e = match p.get_module_by_id(id) {
            LoadState::Ok(_) => None,
            LoadState::Error(e) => Some((e.range(), e.to_string())),
            _ => return Err("neither loaded nor rejected".to_string()),
        };
        Ok((e, acornx::Loaded { project: p, module_id: id }))
    });
    match r {
        Err(p) => run.violation(key, format!("panic: {p}\n{text}")),
        Ok(Err(e)) => run.violation(key, format!("{e}\n{text}")),
        Ok(Ok((Some((r, m)), _))) => {
            run.add("rejected", 1);
            if !inside(text, r) {
                run.violation(key, format!("the error is at {r:?}, outside the text: {m}\n{text}"));
            } else if m.trim().is_empty() {
                run.violation(key, format!("error without a message\n{text}"));
            }
        }
        Ok(Ok((None, l))) => {
            run.add("accepted", 1);
            return Some(l);
        }
    }
    None
}

fn first(h: &HoverContents) -> String {
    let m = |m: &MarkedString| match m {
        MarkedString::String(s) => s.clone(),
        MarkedString::LanguageString(s) => s.value.clone(),
    };
    match h {
        HoverContents::Array(a) => a.first().map_or(String::new(), m),
        HoverContents::Scalar(s) => m(s),
        HoverContents::Markup(s) => s.value.clone(),
    }
}

/// Asks about every word and line.
fn ask(run: &Run, key: &str, text: &str, l: &acornx::Loaded, every: usize) {
    let r = guard(|| {
        let env = l.project.get_env_by_id(l.module_id).ok_or("no environment")?;
        let mut n = 0u64;
        for t in Token::scan(text).iter().step_by(every) {
            let (line, at) = (t.line_number, t.start);
            n += 1;
            if let Some(d) = l.project.definition_location(env, line, at) {
                if !inside(if d.uri.path().ends_with("home.ac") { HOME } else { text }, d.range) {
                    return Err(format!("definition of {} at {line}:{at} is {:?}", t.text(), d.range));
                }
            }
            if let Some(h) = l.project.hover(env, line, at) {
                let what = first(&h.contents);
                if what.is_empty() || what.starts_with("hover error") {
                    return Err(format!("hover on {} at {line}:{at}: {what:?}", t.text()));
                }
                let want = Range::new(Position::new(line, at), Position::new(line, at + utf16(t.text())));
                if h.range != Some(want) {
                    return Err(format!("hover on {} at {line}:{at} has the range {:?}", t.text(), h.range));
                }
            }
            if t.text().chars().all(|c| c.is_alphanumeric() || c == '_') {
                let whole = t.text();
                let before = text.split('\n').nth(line as usize).unwrap();
                let head: String = before.chars().take(at as usize).collect();
                let word: String = head.chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '.').collect::<Vec<_>>().into_iter().rev().collect();
                let ascii = head.is_ascii() && whole.is_ascii();
                for cut in (0..=whole.chars().count()).filter(|_| ascii) {
                    let typed: String = whole.chars().take(cut).collect();
                    for c in l.project.get_completions(Some(Path::new("/mock/main.ac")), line, &format!("{head}{typed}")).unwrap_or_default() {
                        if !c.label.starts_with(&typed) && !(word.is_empty() && cut == 0) {
                            return Err(format!("completion {} for {word}{typed} on line {line}", c.label));
                        }
                    }
                }
            }
        }
        for line in 0..text.split('\n').count() as u32 + 1 {
            let _ = l.project.handle_selection(Path::new("/mock/main.ac"), line);
        }
        Ok(n)
    });
    match r {
        Err(p) => run.violation(key, format!("a question: panic: {p}\n{text}")),
        Ok(Err(e)) => run.violation(key, format!("{e}\n{text}")),
        Ok(Ok(n)) => run.add("transitions", n),
    }
}

/// What the quick tier inserts.
const QUICK: &[&str] = &["(", ")", "[", "{", "}", ",", ":", "=", ".", "not", "axiom", "let", "if", "satisfy"];

fn texts(run: &Run) {
    let mut cases: Vec<(String, String)> = vec![];
    let mut pool: BTreeSet<&str> = BTreeSet::new();
    for (_, text) in DOCS {
        pool.extend(words(text).iter().map(|w| &text[w.0..w.1]));
    }
    for (name, text) in DOCS {
        let w = words(text);
        let own: BTreeSet<&str> = w.iter().map(|w| &text[w.0..w.1]).collect();
        let menu: Vec<&str> = if run.thorough() { pool.iter().copied().collect() } else { own.into_iter().collect() };
        cases.push((format!("text {name}"), text.to_string()));
        for (i, (s, e)) in w.iter().copied().enumerate() {
            cases.push((format!("text {name} delete {i}"), format!("{}{}", &text[..s], &text[e..])));
            cases.push((format!("text {name} cut {i}"), text[..s].to_string()));
            cases.push((format!("text {name} cut inside {i}"), text[..s + 1].to_string()));
            for m in &menu {
                if run.thorough() || (i % 2 == 0) == (m.len() % 2 == 0) {
                    cases.push((format!("text {name} replace {i} {m}"), format!("{}{m}{}", &text[..s], &text[e..])));
                }
                if run.thorough() || QUICK.contains(m) {
                    cases.push((format!("text {name} insert {i} {m}"), format!("{}{m} {}", &text[..s], &text[s..])));
                }
            }
            for c in ["\n", "é", "𝄞", "\"", "@", "//", "///", "\t", "\r\n", "\0", "_", "$", "10", "N", "x0"] {
                cases.push((format!("text {name} before {i} {c:?}"), format!("{}{c}{}", &text[..s], &text[s..])));
                cases.push((format!("text {name} after {i} {c:?}"), format!("{}{c}{}", &text[..e], &text[e..])));
            }
            if let Some((s2, e2)) = w.get(i + 1).copied() {
                cases.push((format!("text {name} swap {i}"), format!("{}{}{}{}{}", &text[..s], &text[s2..e2], &text[e..s2], &text[s..e], &text[e2..])));
            }
            if run.thorough() {
                for (s2, e2) in w.iter().copied().skip(i + 1) {
                    cases.push((format!("text {name} delete {i} to {s2}"), format!("{}{}", &text[..s], &text[e2..])));
                }
            }
        }
        // whole lines
        let lines: Vec<&str> = text.split('\n').collect();
        for i in 0..lines.len() {
            let mut a = lines.clone();
            a.remove(i);
            cases.push((format!("text {name} without line {i}"), a.join("\n")));
            for j in 0..lines.len() {
                let mut a = lines.clone();
                a.insert(j, lines[i]);
                cases.push((format!("text {name} line {i} again at {j}"), a.join("\n")));
            }
        }
    }
    parallel(cases.len(), |i| {
        let (key, text) = &cases[i];
        if let Some(l) = load(run, key, text) {
            ask(run, key, text, &l, if i % 16 == 0 || run.thorough() { 1 } else { 7 });
        }
    });
}

/// A declaration, a formula that uses it, and what is said about its name.
struct Decl { name: &'static str, text: &'static str, uses: &'static [&'static str], says: &'static str, import: &'static str, leads: bool }

const DECLS: &[Decl] = &[
    Decl { name: "konst", text: "let konst: Thing = axiom", uses: &["konst = base", "not base = konst"], says: "konst: Thing", import: "konst", leads: true },
    Decl { name: "val", text: "let val: Thing = wrap(base)", uses: &["wrap(val) = base"], says: "val: Thing", import: "val", leads: true },
    Decl { name: "pred", text: "let pred: Thing -> Bool = axiom", uses: &["pred(base)", "forall(o: Thing) { pred(o) }"], says: "pred: Thing -> Bool", import: "pred", leads: true },
    Decl { name: "fun", text: "define fun(x: Thing) -> Thing {\n    x\n}", uses: &["fun(base) = base", "wrap = fun"], says: "fun: Thing -> Thing", import: "fun", leads: true },
    Decl { name: "two", text: "define two(x: Thing, y: Bool) -> Thing {\n    if y { x } else { base }\n}", uses: &["two(base, true) = base", "two(base)(true) = base"], says: "two: (Thing, Bool) -> Thing", import: "two", leads: true },
    Decl { name: "thm", text: "theorem thm(x: Thing) {\n    x = x\n}", uses: &["thm(base)", "base = base implies thm(wrap(base))"], says: "thm: Thing -> Bool", import: "thm", leads: true },
    Decl { name: "ax", text: "axiom ax {\n    base = base\n}", uses: &["ax", "ax or base = base"], says: "ax: Bool", import: "ax", leads: true },
    Decl { name: "Other", text: "type Other: axiom", uses: &["forall(o: Other) { o = o }", "exists(f: Other -> Thing) { f = f }"], says: "type Other", import: "Other", leads: true },
    Decl { name: "Box", text: "structure Box {\n    item: Thing\n    flag: Bool\n}", uses: &["exists(b: Box) { b.flag }", "Box.new(base, true).item = base"], says: "type Box", import: "Box", leads: true },
    Decl { name: "item", text: "structure Box {\n    item: Thing\n    flag: Bool\n}", uses: &["exists(b: Box) { b.item = base }", "Box.item(Box.new(base, true)) = base"], says: "Box.item: Box -> Thing", import: "Box", leads: false },
    Decl { name: "Num", text: "inductive Num {\n    nought\n    next(Num)\n}", uses: &["Num.next(Num.nought) = Num.nought", "forall(n: Num) { n = n }"], says: "type Num", import: "Num", leads: true },
    Decl { name: "next", text: "inductive Num {\n    nought\n    next(Num)\n}", uses: &["Num.next(Num.nought) = Num.nought", "Num.nought.next = Num.nought", "exists(f: Num -> Num) { f = Num.next }"], says: "Num.next: Num -> Num", import: "Num", leads: false },
    Decl { name: "Opt", text: "inductive Opt[T] {\n    none\n    some(T)\n}", uses: &["forall(o: Opt[Thing]) { o = o }", "Opt.some(base) = Opt.none[Thing]"], says: "", import: "Opt", leads: true },
    Decl { name: "unit", text: "attributes Thing {\n    let unit: Thing = wrap(base)\n}", uses: &["Thing.unit = base"], says: "Thing.unit: Thing", import: "", leads: true },
    Decl { name: "twist", text: "attributes Thing {\n    define twist(self, b: Bool) -> Thing {\n        self\n    }\n}", uses: &["base.twist(true) = base", "Thing.twist(base, true) = base"], says: "Thing.twist: (Thing, Bool) -> Thing", import: "", leads: false },
    Decl { name: "Cls", text: "typeclass C: Cls {\n    star: C\n    law(c: C) {\n        c = C.star\n    }\n}", uses: &[], says: "typeclass: Cls", import: "Cls", leads: true },
];

/// Where a formula can stand: text before and after, and whether its words are known there.
const PLACES: &[(&str, &str)] = &[
    ("theorem goal {\n    ", "\n}\n"),
    ("theorem goal(p: Bool) {\n    p implies (", ")\n}\n"),
    ("theorem goal(p: Bool) { p } by {\n    ", "\n}\n"),
    ("theorem goal(p: Bool) { p } by {\n    forall(y: Thing) {\n        ", "\n    }\n}\n"),
    ("theorem goal(p: Bool) { p } by {\n    if ", " {\n        p\n    }\n}\n"),
    ("theorem goal(p: Bool) { p } by {\n    if p {\n        p\n    } else {\n        ", "\n        p\n    }\n}\n"),
    ("theorem goal(p: Bool) { p } by {\n    let k: Bool = ", "\n    p\n}\n"),
    ("theorem goal(p: Bool) { p } by {\n    forall(y: Thing) {\n        if p {\n            if ", " {\n                y = y\n            }\n        }\n    }\n}\n"),
    ("axiom goal(p: Thing -> Bool) { exists(k: Thing) { p(k) and ", " } }\n"),
    ("define goal(p: Bool) -> Bool {\n    p and ", "\n}\n"),
    ("define goal(p: Bool) -> Bool {\n    if ", " { p } else { true }\n}\n"),
    ("let goal: Bool = ", "\n"),
    ("let goal: Thing -> Bool = function(y: Thing) { y = base and ", " }\n"),
    ("attributes Thing {\n    define goal(self, p: Bool) -> Bool {\n        p or ", "\n    }\n}\n"),
    // what stands here gets no answers; none may be wrong
    ("let goal: Thing satisfy {\n    goal = goal or ", "\n}\n"),
    ("let goal(p: Bool) -> r: Bool satisfy {\n    r = p or ", "\n}\n"),
    ("structure Made {\n    a1: Thing\n} constraint {\n    a1 = a1 or ", "\n}\n"),
    ("typeclass G: Goal {\n    c1: G\n    law1(x1: G) {\n        x1 = x1 or ", "\n    }\n}\n"),
];

const BEFORE: &str = "type Thing: axiom\nlet base: Thing = axiom\nlet wrap: Thing -> Thing = axiom\n";

fn at(text: &str, i: usize) -> (u32, u32) {
    let line = text[..i].matches('\n').count() as u32;
    let start = text[..i].rfind('\n').map_or(0, |j| j + 1);
    (line, utf16(&text[start..i]))
}

/// The first occurrence as a whole word.
fn word_at(text: &str, w: &str, from: usize) -> usize { words(text).into_iter().find(|r| r.0 >= from && &text[r.0..r.1] == w).unwrap_or_else(|| panic!("{w} in {text}")).0 }

/// One use of one declaration: `decl` in `file` (with `text`), used in main from byte `from` on.
fn answers_in(run: &Run, key: &str, d: &Decl, home: (&str, &str), main: &str, from: usize, to: usize, files: &[(String, String)]) {
    run.add("states", 1);
    let r = guard(|| {
        let mut p = acornx::ide_project();
        for (f, t) in files {
            p.mock(&format!("/mock/{f}.ac"), t);
        }
        let id = p.load_module_by_name("main").map_err(|e| format!("{e:?}"))?;
        if let LoadState::Error(e) = p.get_module_by_id(id) {
            return Err(format!("rejected: {e}"));
        }
        let env = p.get_env_by_id(id).unwrap();
        let decl = word_at(home.1, d.name, home.1.find(d.text).unwrap());
        let (dl, dc) = at(home.1, decl);
        let mut seen = 0;
        let optional = main.contains("let goal: Thing satisfy");
        for (s, e) in words(main).into_iter().filter(|w| w.0 >= from && w.1 <= to) {
            let (line, col) = at(main, s);
            let w = &main[s..e];
            for c in col..col + utf16(w) {
                let def = p.definition_location(env, line, c);
                let hov = p.hover(env, line, c).map(|h| first(&h.contents));
                let place = def.as_ref().map(|l| (l.uri.path().rsplit('/').next().unwrap().to_string(), l.range.start.line, l.range.start.character, l.range.end.line, l.range.end.character));
                let (want_def, want_hov) = if w == d.name {
                    seen += 1;
                    (d.leads.then(|| (format!("{}.ac", home.0), dl, dc, dl, dc + utf16(d.name))), d.says.to_string())
                } else if w == "base" || w == "wrap" || w == "Thing" {
                    let i = word_at(home.1, w, 0);
                    let (l, c) = at(home.1, i);
                    (Some((format!("{}.ac", home.0), l, c, l, c + utf16(w))), match w { "base" => "base: Thing", "wrap" => "wrap: Thing -> Thing", _ => "type Thing" }.to_string())
                } else if w == "Bool" {
                    (None, "type Bool".to_string())
                } else {
                    continue;
                };
                if place != want_def && !(want_def.is_none() && !d.leads) && !(optional && place.is_none()) {
                    return Err(format!("definition of {w} at {line}:{c} is {place:?}, not {want_def:?}"));
                }
                if !want_hov.is_empty() && hov.as_deref() != Some(&want_hov) && !(optional && hov.is_none()) {
                    return Err(format!("hover on {w} at {line}:{c} says {hov:?}, not {want_hov:?}"));
                }
                run.add("evaluations", 1);
            }
        }
        if seen == 0 && to > from {
            return Err(format!("{} is not used", d.name));
        }
        Ok(())
    });
    match r {
        Err(p) => run.violation(key, format!("panic: {p}\n{main}")),
        Ok(Err(e)) => run.violation(key, format!("{e}\n{main}")),
        Ok(Ok(())) => {}
    }
}

fn answers(run: &Run) {
    let mut cases = vec![];
    for d in 0..DECLS.len() {
        for u in 0..DECLS[d].uses.len() {
            for pl in 0..PLACES.len() {
                for style in 0..4 {
                    cases.push((d, u, pl, style));
                }
            }
        }
    }
    parallel(cases.len(), |i| {
        let (d, u, pl, style) = cases[i];
        let (d, (pre, post)) = (&DECLS[d], PLACES[pl]);
        let formula = d.uses[u];
        let key = format!("answer {} {} {pl} {style}", d.name, u);
        // a note with wide characters, and a blank line, must not shift anything
        let note = if style % 2 == 1 { "// né𝄞te\n\n/// Says é.\n" } else { "" };
        let lead = format!("{BEFORE}{note}{}\n", d.text);
        let (home, main, skip) = if style < 2 { ("main", format!("{lead}{pre}{formula}{post}"), lead.len()) } else {
            let names: Vec<&str> = ["Thing", "base", "wrap"].into_iter().chain((!d.import.is_empty()).then_some(d.import)).collect();
            let head = if style == 2 { format!("from home import {}\n", names.join(", ")) } else { names.iter().map(|n| format!("from home import {n}\n")).collect::<String>() + "\n" };
            ("home", format!("{head}{pre}{formula}{post}"), head.len())
        };
        let (from, to) = (skip + pre.len(), main.len() - post.len());
        let files = if home == "home" { vec![("home".to_string(), lead.clone()), ("main".to_string(), main.clone())] } else { vec![("main".to_string(), main.clone())] };
        let homet = if home == "home" { lead.clone() } else { main.clone() };
        answers_in(run, &key, d, (home, &homet), &main, from, to, &files);
    });
}

fn main() {
    let run = Run::new("P15");
    std::panic::set_hook(Box::new(|i| if std::env::var("DBG").is_ok() { eprintln!("{i}") }));
    for (name, text) in DOCS {
        if let Err(e) = acornx::load_in(acornx::ide_project(), &[("home", HOME), ("main", text)]) {
            run.violation(&format!("text {name}"), e);
        }
    }
    let part = std::env::args().nth(2).unwrap_or_default();
    if part.is_empty() || part == "texts" { texts(&run); }
    if part.is_empty() || part == "answers" { answers(&run); }
    run.extra("exhaustive", json!(true));
    run.finish(
        "exploration",
        "every one-word and one-character change of the small modules (all statement forms), every position of what is accepted, every declaration form in every use; non-trivial: texts are both accepted and rejected, and the answers about names are compared with the declarations",
        &["the names, types and places of the declarations in DECLS, written down in mc/src/bin/p15.rs"],
        &["states", "accepted", "rejected"],
    )
}
