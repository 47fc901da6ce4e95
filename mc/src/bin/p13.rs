//! P13: what a package's interface promises is what its modules prove, and nothing else of a
//! package can be used from outside.
use mc::{buildx::*, report::*};
use serde_json::json;

const BASE: &str = "inductive Color {\n    red\n    green\n}\n\
define f(x: Color) -> Color { Color.red }\n\
define g(x: Color) -> Color { Color.green }\n\
structure Pair {\n    first: Color\n    second: Color\n}\n\
let pr: Pair = Pair.new(Color.red, Color.green)\n\
typeclass P: Pointed {\n    point: P\n}\n\
typeclass P: Ruled {\n    rule: P\n    law {\n        P.rule = P.rule\n    }\n}\n\
typeclass P: Plain {\n    plain: P\n}\n\
structure Box[T] {\n    item: T\n}\n";
const NAMES: &str = "from base import Color, f, g, Pair, pr, Pointed, Ruled, Plain, Box\n";

fn text(entries: &[(&str, String)]) -> Files {
    let mut out: Files = [("acorn.toml".to_string(), vec![])].into();
    for (p, t) in entries { out.insert(format!("src/{p}"), t.clone().into_bytes()); }
    out
}


fn build(files: &Files, a: &Action) -> Result<Outcome, String> {
    let dir = Workdir::new();
    dir.write(files);
    guard(|| run(&dir.path(), a))
}

/// Everything is verified, then checked; each target alone must agree that something is wrong.
fn judge(r: &Run, key: &str, files: &Files, want: Want, target: Option<&str>) {
    let dir = Workdir::new();
    dir.write(files);
    let src = || files.iter().filter(|(k, _)| k.ends_with(".ac") && *k != "src/base.ac").map(|(k, v)| format!("--{k}:\n{}", String::from_utf8_lossy(v))).collect::<Vec<_>>().join("\n");
    for (what, a) in [("verify", action(Mode::Verify, None, 1)), ("check", action(Mode::Check, None, 1)), ("strict check", action(Mode::Strict, None, 1)), ("again", action(Mode::Verify, None, 3))] {
        // A strict check rejects axioms; that is its purpose.
        if what == "strict check" && (want != Want::Bad) && src().contains("axiom") { continue; }
        r.add("executions", 1);
        match guard(|| run(&dir.path(), &a)) {
            Err(e) => { r.violation(&format!("{key} panic"), format!("{what}: {e}\n{}", src())); return; }
            Ok(o) => {
                let good = o.status == "good";
                if good && want == Want::Bad { r.violation(key, format!("{what} is good: {o:?}\n{}", src())); return; }
                if !good && want == Want::Good { r.violation(key, format!("{what} is {o:?}\n{}", src())); return; }
                // With several jobs a package is validated at the end, and the error is logged for the whole build.
                if !good && o.diags.is_empty() && what != "again" { r.violation(key, format!("{what} fails without a diagnostic: {o:?}\n{}", src())); return; }
                if want == Want::Bad && what == "verify" && o.status == "error" { r.add("rejected", 1); }
                if good { r.add("accepted", 1); }
            }
        }
    }
    if let Some(t) = target {
        r.add("executions", 1);
        match build(files, &action(Mode::Verify, Some(t), 1)) {
            Err(e) => r.violation(&format!("{key} panic"), format!("target {t}: {e}\n{}", src())),
            Ok(o) => {
                let good = o.status == "good";
                if good != (want == Want::Good) { r.violation(&format!("{key} target"), format!("target {t}: {o:?}, expected {want:?}\n{}", src())); }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want { Good, Bad, Any }

/// Declarations of one name, each with another meaning: (as in the interface, proof that the
/// implementation adds).
fn kinds() -> Vec<(&'static str, Vec<(&'static str, &'static str)>)> {
    vec![
        ("value", vec![
            ("theorem t { f(Color.red) = Color.red }", ""),
            ("theorem t { f(Color.green) = Color.red }", ""),
            ("theorem t { Color.red = f(Color.red) }", ""),
            ("theorem t(x: Color) { f(x) = Color.red }", ""),
            ("theorem t(x: Color) { f(x) = f(f(x)) }", ""),
            ("theorem t(y: Color) { f(y) = Color.red }", " by { f(y) = Color.red }"),
            ("theorem t(x: Color, y: Color) { f(x) = Color.red }", ""),
            ("theorem t { forall(x: Color) { f(x) = Color.red } }", ""),
            ("theorem t { exists(x: Color) { f(x) = Color.red } }", ""),
            ("theorem t { not forall(x: Color) { f(x) = Color.green } }", " by { f(Color.red) = Color.red\n f(Color.red) != Color.green }"),
            ("theorem t { f(Color.red) != Color.green }", ""),
            ("theorem t[T](x: T) { x = x }", ""),
            ("theorem t[T: Pointed](x: T) { x = x }", ""),
            ("theorem t[T: Plain](x: T) { x = x }", ""),
            ("theorem t(x: Bool) { x = x }", ""),
            ("theorem t(x: Color) { x = x }", ""),
            ("theorem t(x: Color -> Color) { x = x }", ""),
            ("theorem t(x: Box[Color]) { x = x }", ""),
            ("theorem t(x: Box[Bool]) { x = x }", ""),
            ("theorem t(p: Bool, q: Bool) { (p implies q) or p }", ""),
            ("theorem t(p: Bool, q: Bool) { p implies (q or p) }", ""),
            ("theorem t(p: Bool, q: Bool) { p implies q or p }", ""),
            ("theorem t(p: Bool, q: Bool) { p and q implies p }", ""),
            ("theorem t(p: Bool, q: Bool) { p and q implies q }", ""),
            ("theorem t(p: Bool) { if p { p } else { not p } }", ""),
            ("theorem t(p: Bool) { if p { p } else { true } }", ""),
            ("theorem t(x: Color) { match x { Color.red { x = Color.red } Color.green { true } } }", ""),
            ("theorem t(x: Color) { match x { Color.red { true } Color.green { x = Color.green } } }", ""),
            ("define t(x: Color) -> Color { x }", ""),
            ("define t(x: Color) -> Color { f(x) }", ""),
            ("define t(x: Color) -> Bool { x = f(x) }", ""),
            ("define t(x: Color) -> Bool { f(x) = x }", ""),
            ("define t(x: Color) -> Bool { f(x) != x }", ""),
            ("define t(x: Color, y: Color) -> Color { x }", ""),
            ("define t(y: Color, x: Color) -> Color { x }", ""),
            ("define t[T](x: T) -> T { x }", ""),
            ("define t[T, U](x: T) -> T { x }", ""),
            ("define t[T: Pointed](x: T) -> T { T.point }", ""),
            ("define t[T: Pointed](x: T) -> T { x }", ""),
            ("let t: Color = Color.red", ""),
            ("let t: Color = Color.green", ""),
            ("let t = Color.red", ""),
            ("let t: Bool = true", ""),
            ("let t[T: Pointed]: T = T.point", ""),
            ("let t: Color -> Color = function(x: Color) { x }", ""),
            ("let t: Color -> Color = function(x: Color) { f(x) }", ""),
            ("let t: Color satisfy { t = Color.red }", ""),
            ("let t: Color satisfy { t != Color.red }", ""),
            ("let t: Color satisfy { t = t }", ""),
            ("let t(x: Color) -> y: Color satisfy { y = f(x) }", ""),
            ("let t(x: Color) -> y: Color satisfy { y = g(x) }", ""),
            ("let t(x: Color) -> y: Color satisfy { y = x }", " by { x = x }"),
            ("let t(x: Color, z: Color) -> y: Color satisfy { y = x }", ""),
            ("type Other: Color", ""),
        ]),
        ("pairs", vec![
            ("let (t: Color, u: Color) satisfy { t = Color.red and u = Color.green }", ""),
            ("let (t: Color, u: Color) satisfy { t = Color.green and u = Color.red }", ""),
            ("let (u: Color, t: Color) satisfy { t = Color.green and u = Color.red }", ""),
            ("let Pair.new(t, u) = pr", ""),
            ("let Pair.new(u, t) = pr", ""),
        ]),
        ("types", vec![
            ("structure Item {\n    a: Color\n}", ""),
            ("structure Item {\n    a: Bool\n}", ""),
            ("structure Item {\n    b: Color\n}", ""),
            ("structure Item {\n    a: Color\n    b: Color\n}", ""),
            ("structure Item {\n    b: Color\n    a: Color\n}", ""),
            ("structure Item {\n    a: Color\n} constraint {\n    a = Color.red\n}", " by { Color.red = Color.red }"),
            ("structure Item {\n    a: Color\n} constraint {\n    a != Color.red\n}", ""),
            ("structure Item[T] {\n    a: T\n}", ""),
            ("structure Item[T] {\n    a: Color\n}", ""),
            ("structure Item[T, U] {\n    a: T\n}", ""),
            ("structure Item[U, T] {\n    a: T\n}", ""),
            ("structure Item[T: Pointed] {\n    a: T\n}", ""),
            ("structure Item[T: Plain] {\n    a: T\n}", ""),
            ("structure Item[n: Color] {\n    a: Color\n} constraint {\n    a = n\n}", ""),
            ("structure Item[n: Color] {\n    a: Color\n}", ""),
            ("structure Item[n: Bool] {\n    a: Color\n}", ""),
            ("inductive Item {\n    a\n    b\n}", ""),
            ("inductive Item {\n    b\n    a\n}", ""),
            ("inductive Item {\n    a\n}", ""),
            ("inductive Item {\n    a\n    b(Color)\n}", ""),
            ("inductive Item {\n    a\n    b(Item)\n}", ""),
            ("inductive Item {\n    a\n    b(Color, Item)\n}", ""),
            ("inductive Item[T] {\n    a\n    b(T)\n}", ""),
            ("inductive Item[T] {\n    a\n    b(Item[T])\n}", ""),
            ("type Item: Color", ""),
            ("type Item: Bool", ""),
            ("type Item: Color -> Bool", ""),
            ("typeclass M: Item {\n    a: M\n}", ""),
            ("typeclass M: Item {\n    a: M -> Bool\n}", ""),
            ("typeclass M: Item {\n    b: M\n}", ""),
            ("typeclass M: Item {\n    a: M\n    law {\n        M.a = M.a\n    }\n}", ""),
            ("typeclass M: Item {\n    a: M\n    law {\n        M.a != M.a\n    }\n}", ""),
            ("typeclass M: Item {\n    a: M\n    law(x: M) {\n        M.a = x\n    }\n}", ""),
            ("typeclass M: Item {\n    a: M\n    law(x: M, y: M) {\n        M.a = x\n    }\n}", ""),
            ("typeclass M: Item extends Pointed {\n    a: M\n}", ""),
            ("typeclass M: Item extends Plain {\n    a: M\n}", ""),
            ("typeclass M: Item extends Pointed, Plain {\n    a: M\n}", ""),
        ]),
        ("attributes", vec![
            ("attributes Color {\n    define at(self) -> Bool { self = Color.red }\n}", ""),
            ("attributes Color {\n    define at(self) -> Bool { self = Color.green }\n}", ""),
            ("attributes Color {\n    define at(self, x: Color) -> Bool { self = x }\n}", ""),
            ("attributes Color {\n    let at: Bool = true\n}", ""),
            ("attributes Color {\n    let at: Bool = false\n}", ""),
            ("attributes Color {\n    let at: Color satisfy { at = Color.red }\n}", ""),
            ("attributes Color {\n    let at(x: Color) -> y: Color satisfy { y = x }\n}", " by { x = x }"),
            ("attributes Color {\n    let at(x: Color) -> y: Color satisfy { y = f(x) }\n}", " by { f(x) = f(x) }"),
        ]),
        ("class attributes", vec![
            ("attributes P: Pointed {\n    define at(self) -> Bool { self = P.point }\n}", ""),
            ("attributes P: Pointed {\n    define at(self) -> Bool { self != P.point }\n}", ""),
            ("attributes P: Plain {\n    define at(self) -> Bool { self = P.plain }\n}", ""),
            ("attributes Q: Plain {\n    define at(self) -> Bool { self = Q.plain }\n}", ""),
        ]),
        ("generic attributes", vec![
            ("attributes Box[T] {\n    define at(self) -> T { self.item }\n}", ""),
            ("attributes Box[T] {\n    define at(self) -> Bool { self = self }\n}", ""),
            ("attributes Box[T: Pointed] {\n    define at(self) -> T { self.item }\n}", ""),
            ("attributes Box[T: Pointed] {\n    define at(self) -> T { T.point }\n}", ""),
            ("attributes Box[T: Plain] {\n    define at(self) -> T { self.item }\n}", ""),
        ]),
        ("instances", vec![
            ("instance Color: Pointed {\n    let point: Color = Color.red\n}", ""),
            ("instance Color: Pointed {\n    let point: Color = Color.green\n}", ""),
            ("instance Color: Ruled {\n    let rule: Color = Color.red\n}", ""),
            ("instance Color: Ruled {\n    let rule: Color = Color.green\n}", " by { true }"),
            ("instance Pair: Pointed {\n    let point: Pair = pr\n}", ""),
        ]),
    ]
}

fn implement(decl: &str, proof: &str) -> String {
    if proof.is_empty() { return format!("{decl}\n"); }
    // The proof goes after the closing brace of the statement itself.
    if decl.starts_with("attributes") {
        let cut = decl.rfind("\n}").unwrap();
        format!("{}{proof}{}\n", &decl[..cut], &decl[cut..])
    } else {
        format!("{decl}{proof}\n")
    }
}

/// The name a declaration is to be implemented under.
fn declared(decl: &str) -> Vec<String> {
    let skip = decl.split_whitespace().next().unwrap();
    let rest = decl[skip.len()..].trim_start();
    match skip {
        "theorem" | "define" | "type" | "structure" | "inductive" => vec![rest.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()],
        "let" if rest.starts_with('(') || rest.starts_with("Pair") => vec!["t".into(), "u".into()],
        "let" => vec!["t".into()],
        "typeclass" => vec!["Item".into()],
        "attributes" => vec![format!("{}.at", if decl.contains("Pointed {") && !decl.contains("Box") { "Pointed" } else if decl.contains("Plain {") { "Plain" } else if decl.contains("Box") { "Box" } else { "Color" })],
        _ => vec![decl[9..].split(" {").next().unwrap().to_string()],
    }
}

fn pairs(r: &Run) {
    let mut jobs = vec![];
    for (kind, vs) in kinds() {
        for i in 0..vs.len() {
            for j in 0..vs.len() { jobs.push((kind, vs.clone(), i, j)); }
        }
    }
    parallel(jobs.len(), |n| {
        let (kind, vs, i, j) = &jobs[n];
        let (a, b) = (vs[*i], vs[*j]);
        let files = text(&[("base.ac", BASE.into()), ("pkg/interface.ac", format!("{NAMES}{}\n", a.0)), ("pkg/work.ac", format!("{NAMES}{}", implement(b.0, b.1)))]);
        let want = if i == j { Want::Good } else { Want::Bad };
        r.add("states", 1);
        let key = format!("pair {kind} {i} {j}");
        if i == j || declared(a.0) == declared(b.0) || r.thorough() {
            judge(r, &key, &files, want, Some("pkg"));
        } else {
            judge(r, &key, &files, want, None);
        }
    });
}

fn layouts(r: &Run) {
    let mut jobs = vec![];
    for (kind, vs) in kinds() {
        for v in vs { jobs.push((kind, v)); }
    }
    parallel(jobs.len(), |n| {
        let (kind, v) = jobs[n];
        let theorem = v.0.starts_with("theorem");
        let full = format!("{NAMES}{}", implement(v.0, v.1));
        let iface = format!("{NAMES}{}\n", v.0);
        let b = ("base.ac", BASE.to_string());
        let spaced = |s: &str| s.replace(" { ", " {\n\n        ").replace(": ", ":  ").replace(" }", "\n    }");
        let mut all: Vec<(&str, Vec<(&str, String)>, Want)> = vec![
            ("missing", vec![("pkg/interface.ac", iface.clone()), ("pkg/work.ac", NAMES.into())], Want::Bad),
            ("no module", vec![("pkg/interface.ac", iface.clone())], Want::Bad),
            ("commented", vec![("pkg/interface.ac", iface.clone()), ("pkg/work.ac", format!("{NAMES}// {}\n", v.0.replace('\n', "\n// ")))], Want::Bad),
            ("outside", vec![("pkg/interface.ac", iface.clone()), ("work.ac", full.clone())], Want::Bad),
            ("twice", vec![("pkg/interface.ac", iface.clone()), ("pkg/work.ac", full.clone()), ("pkg/more.ac", full.clone())], Want::Bad),
            ("declared twice", vec![("pkg/interface.ac", format!("{iface}{}\n", v.0)), ("pkg/work.ac", full.clone())], Want::Bad),
            ("deeper", vec![("pkg/interface.ac", iface.clone()), ("pkg/deep/work.ac", full.clone())], Want::Good),
            ("second module", vec![("pkg/interface.ac", iface.clone()), ("pkg/more.ac", "let other: Bool = true\n".into()), ("pkg/work.ac", full.clone())], Want::Good),
            ("more in the module", vec![("pkg/interface.ac", iface.clone()), ("pkg/work.ac", format!("{full}let extra: Bool = true\ntheorem extra_is {{ extra }}\n"))], Want::Good),
            ("empty interface", vec![("pkg/interface.ac", String::new()), ("pkg/work.ac", full.clone())], Want::Good),
            ("an axiom in the interface", vec![("pkg/interface.ac", format!("{iface}axiom also {{ true }}\n")), ("pkg/work.ac", format!("{full}axiom also {{ true }}\n"))], Want::Bad),
            ("a lemma in the interface", vec![("pkg/interface.ac", format!("{iface}lemma also {{ true }}\n")), ("pkg/work.ac", format!("{full}lemma also {{ true }}\n"))], Want::Bad),
            ("a claim in the interface", vec![("pkg/interface.ac", format!("{iface}forall(x: Color) {{ f(x) = Color.red }}\n")), ("pkg/work.ac", full.clone())], Want::Bad),
            ("unproved elsewhere", vec![("pkg/interface.ac", iface.clone()), ("pkg/work.ac", full.clone()), ("pkg/more.ac", format!("{NAMES}theorem wrong(x: Color) {{ x = Color.red }}\n"))], Want::Bad),
        ];
        // Only brackets and colons of the outermost layer are spread out.
        if !v.0.contains("match") && !v.0.contains("if p") {
            all.push(("other layout", vec![("pkg/interface.ac", iface.clone()), ("pkg/work.ac", format!("{NAMES}// layout\n{}", implement(&spaced(v.0), v.1)))], Want::Good));
        }
        if theorem {
            all.push(("axiom", vec![("pkg/interface.ac", iface.clone()), ("pkg/work.ac", format!("{NAMES}{}\n", v.0.replacen("theorem", "axiom", 1)))], Want::Bad));
            all.push(("lemma", vec![("pkg/interface.ac", iface.clone()), ("pkg/work.ac", format!("{NAMES}{}\n", v.0.replacen("theorem", "lemma", 1)))], Want::Bad));
            all.push(("proof in the interface", vec![("pkg/interface.ac", format!("{NAMES}{} by {{ true }}\n", v.0)), ("pkg/work.ac", full.clone())], Want::Bad));
        }
        for (what, mut files, want) in all {
            // Two instances or attributes of one name never meet in one view, so a second one is only found through the interface.
            files.push((b.0, b.1.clone()));
            r.add("states", 1);
            let target = if ["outside", "unproved elsewhere"].contains(&what) || r.thorough() { Some("pkg") } else { None };
            judge(r, &format!("layout {what} | {kind} {}", v.0.replace('\n', " ")), &text(&files), want, target);
        }
    });
}

/// Theorems that support each other through interfaces, directly, or through a module outside.
fn circles(r: &Run) {
    // units: 0 = a.one (ta), 1 = a.two (ua), 2 = b.one (tb), 3 = helper (th)
    let opts: [&[usize]; 4] = [
        // 9 = the axiom, 10+k = unit k through its interface, k = directly
        &[9, 1, 11, 12, 3],
        &[9, 0, 10, 12, 3],
        &[9, 10, 11, 3],
        &[9, 10, 11, 12],
    ];
    let names = ["ta", "ua", "tb", "th"];
    let module = ["a.one", "a.two", "b.one", "helper"];
    let claim = "h(Color.red) = Color.red";
    let mut jobs = vec![];
    for &w in opts[0] { for &x in opts[1] { for &y in opts[2] { for &z in opts[3] { jobs.push([w, x, y, z]); } } } }
    parallel(jobs.len(), |n| {
        let c = jobs[n];
        let head = "from base import Color, h\n";
        let unit = |k: usize| {
            let (imp, by) = match c[k] {
                9 => ("from ground import known\n".to_string(), "known"),
                s if s >= 10 => (format!("from {} import {}\n", if s == 12 { "b" } else { "a" }, names[s - 10]), names[s - 10]),
                s => (format!("from {} import {}\n", module[s], names[s]), names[s]),
            };
            format!("{head}{imp}theorem {} {{ {claim} }} by {{ {by} }}\n", names[k])
        };
        let files = text(&[
            ("base.ac", "inductive Color {\n    red\n    green\n}\nlet h: Color -> Color = axiom\n".into()),
            ("ground.ac", format!("{head}axiom known {{ {claim} }}\n")),
            ("a/interface.ac", format!("{head}theorem ta {{ {claim} }}\ntheorem ua {{ {claim} }}\n")),
            ("b/interface.ac", format!("{head}theorem tb {{ {claim} }}\n")),
            ("a/one.ac", unit(0)), ("a/two.ac", unit(1)), ("b/one.ac", unit(2)), ("helper.ac", unit(3)),
        ]);
        // Does every proof end at the axiom?
        let ends = |mut k: usize| { for _ in 0..5 { match c[k] { 9 => return true, s => k = s % 10 } } false };
        let sound = (0..4).all(ends);
        // Does a package's module depend on its own interface in any way?
        let pkg = |k: usize| [Some(0), Some(0), Some(1), None][k];
        let mut selfish = false;
        for p in 0..2 {
            let mut seen: Vec<usize> = (0..4).filter(|&k| pkg(k) == Some(p)).collect();
            let mut i = 0;
            while i < seen.len() {
                let k = seen[i];
                i += 1;
                let s = c[k];
                if s == 9 { continue; }
                if s >= 10 {
                    let q = pkg(s - 10).unwrap();
                    if q == p { selfish = true; }
                    for m in (0..4).filter(|&m| pkg(m) == Some(q)) { if !seen.contains(&m) { seen.push(m); } }
                } else if !seen.contains(&s) { seen.push(s); }
            }
        }
        let want = if !sound { Want::Bad } else if selfish { Want::Any } else { Want::Good };
        r.add("states", 1);
        r.add(if sound { "circles_none" } else { "circles" }, 1);
        judge(r, &format!("circle {c:?}"), &files, want, None);
    });
}

/// The same words in interface and implementation, which refer to different things.
fn readings(r: &Run) {
    let kind = |n: &str| format!("inductive Kind {{\n    one\n    {n}\n}}\n");
    let base: Vec<(&str, String)> = vec![
        ("color.ac", "inductive Color {\n    red\n    green\n}\ntypeclass P: Pointed {\n    point: P\n}\ninductive Hue {\n    pale\n    dark\n}\n".into()),
        ("f1.ac", "from color import Color\ndefine f(x: Color) -> Color { Color.red }\nlet k: Bool = true\n".into()),
        ("f2.ac", "from color import Color\ndefine f(x: Color) -> Color { Color.green }\nlet k: Bool = false\n".into()),
        ("k1.ac", kind("two")),
        ("k2.ac", kind("three").replace("    three\n", "")),
        ("a1.ac", "from color import Color\nattributes Color {\n    define pick(self) -> Color { Color.red }\n}\n".into()),
        ("a2.ac", "from color import Color\nattributes Color {\n    define pick(self) -> Color { Color.green }\n}\n".into()),
        ("i1.ac", "from color import Color, Pointed\ninstance Color: Pointed {\n    let point: Color = Color.red\n}\n".into()),
        ("i2.ac", "from color import Color, Pointed\ninstance Color: Pointed {\n    let point: Color = Color.green\n}\n".into()),
        ("n.ac", "from color import Color, Hue\nattributes Color {\n    let 0: Color = Color.red\n    let 1: Color = Color.red\n}\nattributes Hue {\n    let 0: Hue = Hue.pale\n    let 1: Hue = Hue.dark\n}\n".into()),
    ];
    // (what, statement, headings with what the words then mean)
    let own_f = |c: &str| format!("from color import Color\ndefine f(x: Color) -> Color {{ Color.{c} }}\n");
    let menu: Vec<(&str, [&str; 2], Vec<(&str, String)>)> = vec![
        ("name", ["theorem t { f(Color.red) = Color.red }", "theorem t { f(Color.red) = Color.green }"], vec![
            ("red", "from color import Color\nfrom f1 import f\n".into()), ("green", "from color import Color\nfrom f2 import f\n".into()),
            ("own red", own_f("red")), ("own green", own_f("green")),
            ("sibling", "from color import Color\nfrom pkg.side import f\n".into()),
        ]),
        ("constant", ["theorem t { k }", "theorem t { not k }"], vec![
            ("red", "from f1 import k\n".into()), ("green", "from f2 import k\n".into()), ("own red", "let k: Bool = true\n".into()), ("own green", "let k: Bool = false\n".into()),
        ]),
        ("type", ["theorem t { forall(x: Kind) { x = Kind.one } }", "theorem t { exists(x: Kind) { x != Kind.one } }"], vec![
            ("green", "from k1 import Kind\n".into()), ("red", "from k2 import Kind\n".into()), ("own green", kind("two")), ("own red", kind("two").replace("    two\n", "")),
        ]),
        ("attribute", ["theorem t { Color.red.pick = Color.red }", "theorem t { Color.red.pick = Color.green }"], vec![
            ("red", "from color import Color\nfrom a1 import Color\n".into()), ("green", "from color import Color\nfrom a2 import Color\n".into()),
        ]),
        ("instance", ["theorem t { Color.point = Color.red }", "theorem t { Color.point = Color.green }"], vec![
            ("red", "from i1 import Color\n".into()), ("green", "from i2 import Color\n".into()),
        ]),
        ("numerals", ["theorem t { 0 = 1 }", "theorem t { 0 != 1 }"], vec![
            ("red", "from n import Color\nnumerals Color\n".into()), ("green", "from n import Hue\nnumerals Hue\n".into()),
        ]),
    ];
    let mut jobs = vec![];
    for (what, st, heads) in &menu {
        for s in 0..2 { for i in 0..heads.len() { for j in 0..heads.len() { jobs.push((*what, st[s], s, heads[i].clone(), heads[j].clone())); } } }
    }
    parallel(jobs.len(), |n| {
        let (what, st, s, a, b) = &jobs[n];
        let sense = |h: &str| if h == "sibling" { 0 } else if h.ends_with("red") { 0 } else { 1 };
        let truth = |h: &str| sense(h) == *s;
        // An interface cannot refer to a private module.
        if a.0 == "sibling" { return; }
        let fix = |h: &str| h.replace("from color import Color\nfrom a", "from a");
        let mut files = base.clone();
        files.push(("pkg/interface.ac", format!("{}{st}\n", fix(&a.1))));
        files.push(("pkg/work.ac", format!("{}{st}\n", fix(&b.1))));
        if b.0 == "sibling" { files.push(("pkg/side.ac", own_f("red"))); }
        // What the interface declares on its own must be implemented too.
        if a.0.starts_with("own") && !b.0.starts_with("own") && b.0 != "sibling" {
            let side = a.1.clone();
            files.push(("pkg/side.ac", side));
        }
        let same = a.0 == b.0 || (b.0 == "sibling" && a.0 == "own red");
        let want = if !truth(&a.0) || !truth(&b.0) { Want::Bad } else if same { Want::Good } else { Want::Any };
        r.add("states", 1);
        judge(r, &format!("reading {what} {s} {} / {}", a.0, b.0), &text(&files), want, if same { Some("pkg") } else { None });
    });
}

/// Who may import what.
fn visibility(r: &Run) {
    let files = |user: &str, path: &'static str| {
        text(&[
            ("base.ac", "inductive Color {\n    red\n    green\n}\n".into()),
            ("pkg/interface.ac", "from base import Color\ndefine f(x: Color) -> Color { x }\ntheorem t(x: Color) { f(x) = x }\nstructure Item {\n    a: Color\n}\n".into()),
            ("pkg/work.ac", "from base import Color\ndefine f(x: Color) -> Color { x }\ntheorem t(x: Color) { f(x) = x }\nstructure Item {\n    a: Color\n}\nlet hidden: Color = Color.red\ntheorem secret { hidden = Color.red }\nlemma low { true }\n".into()),
            ("pkg/deep/inner.ac", "let hidden2: Bool = true\n".into()),
            ("other/interface.ac", "let o: Bool = true\n".into()),
            ("other/work.ac", "let o: Bool = true\n".into()),
            (path, user.to_string()),
        ])
    };
    let outside: Vec<(&str, bool)> = vec![
        ("from base import Color\nfrom pkg import f, t, Item\ntheorem u(x: Color) { f(x) = x } by { t(x) }\n", true),
        ("from base import Color\nfrom pkg import f\ntheorem u(x: Color) { f(x) = x }\n", true),
        ("from pkg import t\n", true),
        ("from pkg import Item\n", true),
        ("from pkg import hidden\n", false),
        ("from pkg import secret\n", false),
        ("from pkg import low\n", false),
        ("from pkg import hidden2\n", false),
        ("from pkg import Color\n", true),
        ("from pkg.work import f\n", false),
        ("from pkg.work import hidden\n", false),
        ("from pkg.work import secret\n", false),
        ("from pkg.deep.inner import hidden2\n", false),
        ("from pkg.interface import f\n", true),
        ("theorem u { lib(pkg.work).hidden = lib(pkg.work).hidden }\n", false),
        ("theorem u { lib(pkg.deep.inner).hidden2 }\n", false),
        ("from other import o\n", true),
    ];
    let mut jobs: Vec<(String, &'static str, Want)> = vec![];
    for (u, ok) in &outside {
        // Importing an interface by its file name, or a name through it, may be refused.
        let soft = u.contains("pkg.interface") || u.contains("import Color\n") && !u.contains("base") ;
        let want = if soft { Want::Any } else if *ok { Want::Good } else { Want::Bad };
        jobs.push((u.to_string(), "user.ac", want));
        jobs.push((u.to_string(), "dir/user.ac", want));
        // A package's own interface may be closed to its modules.
        jobs.push((u.to_string(), "other/user.ac", if u.contains("from other ") { Want::Any } else { want }));
    }
    // Within the package its own modules may be used, but not from the interface.
    for u in ["from pkg.work import hidden, f\ntheorem u { hidden = hidden }\n", "from pkg.deep.inner import hidden2\ntheorem u { hidden2 }\n", "from pkg.work import secret, hidden\nfrom base import Color\ntheorem u { hidden = Color.red } by { secret }\n"] {
        jobs.push((u.into(), "pkg/more.ac", Want::Good));
        jobs.push((u.into(), "pkg/deep/more.ac", Want::Good));
    }
    jobs.push(("from pkg.work import low\n".into(), "pkg/more.ac", Want::Bad));
    jobs.push(("from pkg.work import hidden\nlet q: Bool = true\n".into(), "pkg/interface.ac", Want::Bad));
    jobs.push(("from pkg.deep.inner import hidden2\nlet q: Bool = true\n".into(), "pkg/interface.ac", Want::Bad));
    // No package within a package.
    jobs.push(("let q: Bool = true\n".into(), "pkg/deep/interface.ac", Want::Bad));
    parallel(jobs.len(), |n| {
        let (u, path, want) = &jobs[n];
        r.add("states", 1);
        judge(r, &format!("import {path} {}", u.replace('\n', " ")), &files(u, path), *want, None);
    });
}

fn main() {
    let out = quiet();
    let r = Run::new("P13");
    let only = std::env::args().nth(2).unwrap_or_default();
    for (name, part) in [("pairs", pairs as fn(&Run)), ("layouts", layouts), ("circles", circles), ("readings", readings), ("visibility", visibility)] {
        if !only.is_empty() && only != name { continue; }
        part(&r);
        if std::env::var("DBG").is_ok() { eprintln!("{name} {:.1}s", r.elapsed()); }
    }
    r.extra("kinds", json!(kinds().iter().map(|(k, v)| json!([k, v.len()])).collect::<Vec<_>>()));
    loud(out);
    r.finish("exploration", "every interface/implementation pair, layout, support graph, reading and import of the menus is built from scratch, checked, strictly checked and built again", &["verdicts follow from the construction of the menus"], &["states", "executions", "accepted", "rejected", "circles"]);
}
