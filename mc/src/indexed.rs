//! Types indexed by values, over one finite standard model: terms, formulas and their meaning.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Color,
    Bool,
    /// `Tag[c: Color] { mark: Color }`
    Tag,
    /// `Own[c: Color] { sign: Color } constraint { sign = c }`
    Own,
    /// `Red[c: Color] { kept: Color } constraint { c = Color.red }`: without values at green.
    Red,
    /// `Duo[c: Color, d: Color] { left: Tag[c], right: Own[d] }`
    Duo,
    /// `Tag[c] -> Bool`
    Pred,
    /// `Tag[c] -> Tag[c]`
    Act,
    /// `(Tag[c], Tag[d]) -> Bool`
    Rel,
    /// `Eye[c: Color] { sees: Tag[c] -> Bool, hue: Color }`
    Eye,
    /// `Deep[c: Color, d: Color] { eye: Eye[d], own: Own[c] }`
    Deep,
}

/// A type, with its indices.
#[derive(Clone, Debug)]
pub struct Ty(pub K, pub Vec<Tm>);

#[derive(Clone, Debug)]
pub enum Tm {
    Var(usize),
    Col(bool),
    Flip(Box<Tm>),
    /// A projection, with the type it takes.
    Proj(&'static str, Box<Tm>),
    /// Constructor of an unconstrained type: its indices and fields.
    New(K, Vec<Tm>, Vec<Tm>),
    /// `turn(c, x)`: a tag at the other index with the same mark.
    Turn(Box<Tm>, Box<Tm>),
    /// `x.swap`: an attribute.
    Swap(Box<Tm>),
    /// `made(c)`: a function into the family.
    Made(Box<Tm>),
    /// `f(x)` for `f: Tag[c] -> Tag[c]`
    Act(Box<Tm>, Box<Tm>),
    /// A function of the text over these values, of a type like the last argument's.
    Call(String, Vec<Tm>, fn(&[V]) -> V),
}

#[derive(Clone, Debug)]
pub enum Fm {
    Eq(Tm, Tm),
    /// `x.like(y)` on tags of one index.
    Like(Tm, Tm),
    /// `f(x, ..)`
    App(Tm, Vec<Tm>),
    /// `T[i].new(f) = Option.some(y)` or `= Option.none`
    NewIs(K, Tm, Tm, Option<Tm>),
    Not(Box<Fm>),
    And(Box<Fm>, Box<Fm>),
    Or(Box<Fm>, Box<Fm>),
    Imp(Box<Fm>, Box<Fm>),
    All(Ty, Box<Fm>),
    Ex(Ty, Box<Fm>),
    True,
}

/// The text all goals share.
pub const WORLD: &str = "inductive Option[T] {
    none
    some(T)
}
inductive Color {
    red
    green
}
attributes Color {
    define flip(self) -> Color {
        match self {
            Color.red { Color.green }
            Color.green { Color.red }
        }
    }
}
structure Tag[c: Color] {
    mark: Color
}
structure Own[c: Color] {
    sign: Color
} constraint {
    sign = c
}
structure Red[c: Color] {
    kept: Color
} constraint {
    c = Color.red
}
structure Duo[c: Color, d: Color] {
    left: Tag[c]
    right: Own[d]
}
structure Eye[c: Color] {
    sees: Tag[c] -> Bool
    hue: Color
}
structure Deep[c: Color, d: Color] {
    eye: Eye[d]
    own: Own[c]
}
attributes Tag[c: Color] {
    define like(self, other: Tag[c]) -> Bool { self.mark = other.mark }
    define swap(self) -> Tag[c] { Tag[c].new(self.mark.flip) }
}
define turn(c: Color, x: Tag[c]) -> Tag[c.flip] {
    Tag[c.flip].new(x.mark)
}
define made(c: Color) -> Tag[c] {
    Tag[c].new(c)
}
";

/// A value: the index or indices do not matter once it is known to be of a type.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    C(bool),
    B(bool),
    /// Index or indices, fields.
    S(K, Vec<bool>, Vec<V>),
}

/// All lists of n values of two.
fn tables(n: usize, f: impl Fn(bool) -> V) -> Vec<Vec<V>> { (0..1usize << n).map(|m| (0..n).map(|i| f(m >> i & 1 == 1)).collect()).collect() }

pub fn tag(ix: bool, mark: bool) -> V { V::S(K::Tag, vec![ix], vec![V::C(mark)]) }

/// The mark of a tag, as a position in a table.
fn pos(v: &V) -> usize { if let V::S(K::Tag, _, f) = v { col(&f[0]) as usize } else { panic!("{v:?}") } }

/// The same value where the indices are the same as these, one for each of its own.
pub fn moved(v: &V, to: &[bool]) -> V {
    match v {
        V::S(k, _, f) => V::S(*k, to.to_vec(), f.iter().enumerate().map(|(i, x)| match x {
            V::S(..) => moved(x, &match (k, i) { (K::Duo, 0) => vec![to[0]], (K::Duo, _) => vec![to[1]], (K::Deep, 0) => vec![to[1]], (K::Deep, _) => vec![to[0]], _ => to.to_vec() }),
            v => v.clone(),
        }).collect()),
        v => v.clone(),
    }
}

pub fn col(v: &V) -> bool { if let V::C(b) = v { *b } else { panic!("{v:?}") } }

/// All values of a type.
pub fn values(k: K, ix: &[bool]) -> Vec<V> {
    let c = |b| V::C(b);
    match k {
        K::Color => vec![c(false), c(true)],
        K::Bool => vec![V::B(false), V::B(true)],
        K::Tag => vec![V::S(K::Tag, ix.to_vec(), vec![c(false)]), V::S(K::Tag, ix.to_vec(), vec![c(true)])],
        K::Own => vec![V::S(K::Own, ix.to_vec(), vec![c(ix[0])])],
        K::Red => if ix[0] { vec![] } else { vec![V::S(K::Red, ix.to_vec(), vec![c(false)]), V::S(K::Red, ix.to_vec(), vec![c(true)])] },
        K::Duo => {
            let mut out = vec![];
            for l in values(K::Tag, &ix[..1]) {
                for r in values(K::Own, &ix[1..]) {
                    out.push(V::S(K::Duo, ix.to_vec(), vec![l.clone(), r]));
                }
            }
            out
        }
        K::Pred => tables(2, V::B).into_iter().map(|t| V::S(k, ix.to_vec(), t)).collect(),
        K::Act => tables(2, |b| tag(ix[0], b)).into_iter().map(|t| V::S(k, ix.to_vec(), t)).collect(),
        K::Rel => tables(4, V::B).into_iter().map(|t| V::S(k, ix.to_vec(), t)).collect(),
        K::Eye => values(K::Pred, ix).into_iter().flat_map(|f| [false, true].map(|h| V::S(k, ix.to_vec(), vec![f.clone(), c(h)]))).collect(),
        K::Deep => values(K::Eye, &ix[1..]).into_iter().flat_map(|e| values(K::Own, &ix[..1]).into_iter().map(move |o| V::S(k, ix.to_vec(), vec![e.clone(), o])).collect::<Vec<_>>()).collect(),
    }
}

pub fn field(p: &str) -> (K, usize, K) {
    match p {
        "mark" => (K::Tag, 0, K::Color),
        "sign" => (K::Own, 0, K::Color),
        "kept" => (K::Red, 0, K::Color),
        "left" => (K::Duo, 0, K::Tag),
        "right" => (K::Duo, 1, K::Own),
        "sees" => (K::Eye, 0, K::Pred),
        "hue" => (K::Eye, 1, K::Color),
        "eye" => (K::Deep, 0, K::Eye),
        "own" => (K::Deep, 1, K::Own),
        _ => panic!("{p}"),
    }
}

pub fn tm(t: &Tm, env: &[V]) -> V {
    match t {
        Tm::Var(i) => env[*i].clone(),
        Tm::Col(b) => V::C(*b),
        Tm::Flip(t) => V::C(!col(&tm(t, env))),
        Tm::Proj(p, t) => match tm(t, env) { V::S(_, _, f) => f[field(p).1].clone(), v => panic!("{v:?}") },
        Tm::New(k, ix, f) => V::S(*k, ix.iter().map(|i| col(&tm(i, env))).collect(), f.iter().map(|x| tm(x, env)).collect()),
        Tm::Turn(c, x) => match tm(x, env) { V::S(_, _, f) => V::S(K::Tag, vec![!col(&tm(c, env))], f), v => panic!("{v:?}") },
        Tm::Swap(x) => match tm(x, env) { V::S(_, i, f) => V::S(K::Tag, i, vec![V::C(!col(&f[0]))]), v => panic!("{v:?}") },
        Tm::Made(c) => { let c = tm(c, env); V::S(K::Tag, vec![col(&c)], vec![c]) }
        Tm::Act(f, x) => match tm(f, env) { V::S(_, _, t) => t[pos(&tm(x, env))].clone(), v => panic!("{v:?}") },
        Tm::Call(_, a, f) => f(&a.iter().map(|a| tm(a, env)).collect::<Vec<_>>()),
    }
}

pub fn fm(f: &Fm, env: &mut Vec<V>) -> bool {
    match f {
        Fm::True => true,
        Fm::Eq(a, b) => tm(a, env) == tm(b, env),
        Fm::Like(a, b) => match (tm(a, env), tm(b, env)) { (V::S(_, _, x), V::S(_, _, y)) => x[0] == y[0], v => panic!("{v:?}") },
        Fm::App(f, a) => match tm(f, env) { V::S(_, _, t) => t[a.iter().fold(0, |n, a| n * 2 + pos(&tm(a, env)))] == V::B(true), v => panic!("{v:?}") },
        Fm::NewIs(k, i, x, y) => {
            let (ix, x) = (vec![col(&tm(i, env))], tm(x, env));
            let made = V::S(*k, ix.clone(), vec![x]);
            let made = values(*k, &ix).contains(&made).then_some(made);
            made == y.as_ref().map(|y| tm(y, env))
        }
        Fm::Not(f) => !fm(f, env),
        Fm::And(a, b) => fm(a, env) && fm(b, env),
        Fm::Or(a, b) => fm(a, env) || fm(b, env),
        Fm::Imp(a, b) => !fm(a, env) || fm(b, env),
        Fm::All(t, f) => every(t, f, env),
        Fm::Ex(t, f) => {
            let ix: Vec<bool> = t.1.iter().map(|i| col(&tm(i, env))).collect();
            values(t.0, &ix).into_iter().any(|v| { env.push(v); let r = fm(f, env); env.pop(); r })
        }
    }
}

fn every(t: &Ty, f: &Fm, env: &mut Vec<V>) -> bool {
    let ix: Vec<bool> = t.1.iter().map(|i| col(&tm(i, env))).collect();
    values(t.0, &ix).into_iter().all(|v| { env.push(v); let r = fm(f, env); env.pop(); r })
}

/// True for all values of the arguments, each of whose types may speak of the earlier ones.
pub fn valid(args: &[Ty], f: &Fm, env: &mut Vec<V>) -> bool {
    let Some(t) = args.get(env.len()) else { return fm(f, env) };
    let ix: Vec<bool> = t.1.iter().map(|i| col(&tm(i, env))).collect();
    values(t.0, &ix).into_iter().all(|v| { env.push(v); let r = valid(args, f, env); env.pop(); r })
}

pub fn name(i: usize) -> String { format!("v{i}") }

pub fn show_tm(t: &Tm) -> String {
    match t {
        Tm::Var(i) => name(*i),
        Tm::Col(b) => format!("Color.{}", if *b { "green" } else { "red" }),
        Tm::Flip(t) => format!("{}.flip", show_tm(t)),
        Tm::Proj(p, t) => format!("{}.{p}", show_tm(t)),
        Tm::New(k, ix, f) => format!("{}.new({})", show_ty(&Ty(*k, ix.clone())), f.iter().map(show_tm).collect::<Vec<_>>().join(", ")),
        Tm::Turn(c, x) => format!("turn({}, {})", show_tm(c), show_tm(x)),
        Tm::Swap(x) => format!("{}.swap", show_tm(x)),
        Tm::Made(c) => format!("made({})", show_tm(c)),
        Tm::Act(f, x) => format!("{}({})", show_tm(f), show_tm(x)),
        Tm::Call(f, a, _) => format!("{f}({})", a.iter().map(show_tm).collect::<Vec<_>>().join(", ")),
    }
}

pub fn show_ty(t: &Ty) -> String {
    let i: Vec<String> = t.1.iter().map(show_tm).collect();
    match t.0 {
        K::Pred => return format!("Tag[{}] -> Bool", i[0]),
        K::Act => return format!("Tag[{0}] -> Tag[{0}]", i[0]),
        K::Rel => return format!("(Tag[{}], Tag[{}]) -> Bool", i[0], i[1]),
        _ => {}
    }
    if t.1.is_empty() { format!("{:?}", t.0) } else { format!("{:?}[{}]", t.0, t.1.iter().map(show_tm).collect::<Vec<_>>().join(", ")) }
}

pub fn show(f: &Fm, depth: usize) -> String {
    let s = |f: &Fm| show(f, depth);
    match f {
        Fm::True => "true".into(),
        Fm::Eq(a, b) => format!("({} = {})", show_tm(a), show_tm(b)),
        Fm::Like(a, b) => format!("{}.like({})", show_tm(a), show_tm(b)),
        Fm::App(f, a) => format!("{}({})", show_tm(f), a.iter().map(show_tm).collect::<Vec<_>>().join(", ")),
        Fm::NewIs(k, i, x, y) => {
            let t = show_ty(&Ty(*k, vec![i.clone()]));
            format!("({t}.new({}) = {})", show_tm(x), y.as_ref().map_or(format!("Option.none[{t}]"), |y| format!("Option.some({})", show_tm(y))))
        }
        Fm::Not(f) => format!("not {}", s(f)),
        Fm::And(a, b) => format!("({} and {})", s(a), s(b)),
        Fm::Or(a, b) => format!("({} or {})", s(a), s(b)),
        Fm::Imp(a, b) => format!("({} implies {})", s(a), s(b)),
        Fm::All(t, f) => format!("forall({}: {}) {{ {} }}", name(depth), show_ty(t), show(f, depth + 1)),
        Fm::Ex(t, f) => format!("exists({}: {}) {{ {} }}", name(depth), show_ty(t), show(f, depth + 1)),
    }
}
