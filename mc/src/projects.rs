//! Small projects whose modules come in several variants with known verdicts.
use crate::buildx::*;
use crate::report::guard;

/// What is known of a module variant by construction.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum V { Good, Warning, Error }

pub struct Module {
    pub path: &'static str,
    pub name: &'static str,
    /// None: the file is absent.
    pub variants: Vec<Option<&'static str>>,
}

pub struct Family {
    pub name: &'static str,
    pub modules: Vec<Module>,
    pub targets: Vec<&'static str>,
    /// Verdict of module `m` under a choice of variants.
    pub expect: fn(&[usize], usize) -> V,
    /// Choices verified in full to make the starting states.
    pub seeds: Vec<Vec<usize>>,
}

pub const AXIOMS: &str = "type Thing: axiom\nlet p: Thing -> Bool = axiom\nlet a: Thing = axiom\nlet b: Thing = axiom\naxiom ab { p(a) implies p(b) }\n";

pub fn families() -> Vec<Family> {
    let s = |s: String| -> Option<&'static str> { Some(Box::leak(s.into_boxed_str())) };
    let flat = Family {
        name: "flat",
        modules: vec![
            Module {
                path: "src/base.ac", name: "base",
                variants: vec![
                    s(format!("{AXIOMS}axiom pa {{ p(a) }}\ntheorem pb {{ p(b) }}\n")),
                    s(format!("{AXIOMS}theorem tt {{ p(a) implies p(b) }}\n")),
                    s(format!("{AXIOMS}axiom pa {{ p(a) }}\n// just a comment\ntheorem pb {{ p(b) }}\ntheorem un {{ exists(x: Thing) {{ not p(x) }} }}\n")),
                    s("type Thing axiom\n".to_string()),
                ],
            },
            Module {
                path: "src/mid.ac", name: "mid",
                variants: vec![
                    s("from base import Thing, p, a, b\nlet mk: Bool = true\ntheorem mp { exists(x: Thing) { p(x) } }\n".into()),
                    s("from base import Thing, p, a, b\nlet mk: Bool = true\ntheorem mr { p(a) or not p(a) }\ntheorem mq { p(b) and p(a) }\n".into()),
                    s("let mk: Bool = true\ntheorem mt { true }\n".into()),
                ],
            },
            Module {
                path: "src/top.ac", name: "top",
                variants: vec![
                    s("from mid import mk\nfrom base import Thing, p, a, b\ntheorem t { p(b) or p(b) }\n".into()),
                    None,
                ],
            },
        ],
        targets: vec!["base", "mid", "top"],
        expect: |c, m| {
            let pa = c[0] == 0 || c[0] == 2;
            match m {
                0 => [V::Good, V::Good, V::Warning, V::Error][c[0]],
                1 => if c[1] == 2 { V::Good } else if c[0] == 3 { V::Error } else if pa { V::Good } else { V::Warning },
                _ => if c[2] == 1 { V::Error } else if c[0] == 3 { V::Error } else if pa || c[1] == 1 { V::Good } else { V::Warning },
            }
        },
        seeds: vec![vec![0, 0, 0], vec![0, 2, 0]],
    };
    let pkg = Family {
        name: "package",
        modules: vec![
            Module {
                path: "src/pkg/interface.ac", name: "pkg",
                variants: vec![
                    s("theorem pub1 { forall(x: Bool) { x implies x } }\n".into()),
                    s("// comment\ntheorem pub1 { forall(x: Bool) { x implies x } }\n".into()),
                    s("theorem pub1 { forall(x: Bool) { x implies x } }\ntheorem pub2 { forall(x: Bool) { x } }\n".into()),
                ],
            },
            Module {
                path: "src/pkg/internal.ac", name: "pkg.internal",
                variants: vec![
                    s("theorem pub1 { forall(x: Bool) { x implies x } }\n".into()),
                    s("theorem pub1 { forall(x: Bool) { x implies x } }\ntheorem pub2 { forall(x: Bool) { x } }\n".into()),
                    s("theorem pub1 { forall(x: Bool) { x implies not x } }\n".into()),
                    None,
                ],
            },
            Module {
                path: "src/user.ac", name: "user",
                variants: vec![
                    s("from pkg import pub1\ntheorem u { forall(x: Bool) { not x or x } }\n".into()),
                    s("from pkg import pub2\ntheorem u { forall(x: Bool) { x } }\n".into()),
                    None,
                ],
            },
        ],
        targets: vec!["pkg", "pkg.internal", "user"],
        expect: |c, m| {
            let matches = c[1] != 3 && c[1] != 2 && (c[0] != 2 || c[1] == 1);
            match m {
                2 => if c[2] == 2 || (c[2] == 1 && c[0] != 2) { V::Error } else { V::Good },
                _ => if !matches { V::Error } else if c[1] == 1 { V::Warning } else { V::Good },
            }
        },
        seeds: vec![vec![0, 0, 0], vec![2, 1, 1]],
    };
    // Several modules that can fail independently of each other in one build.
    let pair_text = ["let a: Bool = axiom\naxiom fact { a }\ntheorem goal { a }\n", "let a: Bool = axiom\ntheorem goal { a }\n"];
    let pair = Family {
        name: "pair",
        modules: vec![
            Module { path: "src/one.ac", name: "one", variants: pair_text.iter().map(|t| s(t.to_string())).collect() },
            Module { path: "src/two.ac", name: "two", variants: pair_text.iter().map(|t| s(t.to_string())).collect() },
            Module {
                path: "src/use.ac", name: "use",
                variants: vec![
                    s("from one import a\nfrom two import goal\ntheorem u { a or not a }\ntheorem v { not a or not not a }\n".into()),
                    s("from one import a\ntheorem u { a or not a }\ntheorem v { not a }\ntheorem w { not not not a }\n".into()),
                ],
            },
        ],
        targets: vec!["one", "use"],
        expect: |c, m| [V::Good, V::Warning][c[m]],
        seeds: vec![],
    };
    vec![flat, pkg, pair]
}

pub fn source_files(f: &Family, c: &[usize]) -> Files {
    let mut out = Files::new();
    for (m, v) in f.modules.iter().zip(c) {
        if let Some(t) = m.variants[*v] {
            out.insert(m.path.into(), t.as_bytes().to_vec());
        }
    }
    out
}

pub fn choices(f: &Family) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for m in &f.modules {
        out = out.into_iter().flat_map(|c: Vec<usize>| (0..m.variants.len()).map(move |v| { let mut c = c.clone(); c.push(v); c })).collect();
    }
    out
}

pub fn cache_of(files: &Files) -> Files { files.iter().filter(|(k, _)| is_cache(k)).map(|(k, v)| (k.clone(), v.clone())).collect() }

/// The order in which leftover certificates are written is not part of the state.
pub fn canon(cache: &Files) -> Vec<u8> {
    let mut out = vec![];
    for (k, v) in cache {
        out.extend_from_slice(k.as_bytes());
        out.push(0);
        if k.ends_with(".jsonl") {
            let mut l: Vec<&[u8]> = v.split(|c| *c == b'\n').collect();
            l.sort();
            for x in l { out.extend_from_slice(x); out.push(b'\n'); }
        } else {
            out.extend_from_slice(v);
        }
        out.push(0);
    }
    out
}

pub fn act_name(a: &Action) -> String { format!("{:?} {} jobs={}", a.mode, a.target.as_deref().unwrap_or("all"), a.jobs) }

thread_local!(static DIR: Workdir = Workdir::new());

pub fn exec(files: &Files, a: &Action) -> (Result<Outcome, String>, Files) {
    DIR.with(|d| {
        d.write(files);
        let r = guard(|| run(&d.path(), a));
        (r, d.read())
    })
}


pub fn describe(f: &Family, c: &[usize]) -> String { f.modules.iter().zip(c).map(|(m, v)| format!("{}{}", m.name, v)).collect::<Vec<_>>().join(",") }
