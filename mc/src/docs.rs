//! Small modules that together use every form of statement and expression.

/// A module that the others import.
pub const HOME: &str = "inductive Num {\n    nought\n    next(Num)\n}\nattributes Num {\n    define plus(self, n: Num) -> Num { self }\n}\ntypeclass K: Kind {\n    pick: K\n}\ninstance Num: Kind {\n    let pick: Num = Num.nought\n}\naxiom known(n: Num) { n.plus(Num.nought) = n }\n";

pub const DOCS: &[(&str, &str)] = &[
    ("numbers", "inductive Nat {\n    0\n    suc(Nat)\n}\n\nattributes Nat {\n    define add(self, m: Nat) -> Nat {\n        match m {\n            Nat.0 {\n                self\n            }\n            Nat.suc(p) {\n                self.add(p).suc\n            }\n        }\n    }\n    let 1: Nat = Nat.suc(Nat.0)\n    define neg(self) -> Nat { self }\n    define lte(self, m: Nat) -> Bool {\n        exists(k: Nat) { self + k = m }\n    }\n}\n\nnumerals Nat\n\ntheorem add_one(a: Nat) {\n    a + 1 = a.suc\n} by {\n    1 = Nat.suc(0)\n    a + 0 = a\n}\n\naxiom order(a: Nat, b: Nat) { a <= b or b <= a }\n\ntheorem chain(a: Nat, b: Nat, c: Nat) {\n    a = b and b = c implies -a = -c\n}\n"),
    ("blocks", "type Thing: axiom\nlet a: Thing = axiom\nlet p: Thing -> Bool = axiom\nlet q: Thing -> Bool = axiom\n/// Says when q.\naxiom rule(x: Thing) { p(x) implies q(x) }\n\ntheorem all_cases(x: Thing) {\n    not q(x) implies not p(x)\n} by {\n    if p(x) {\n        rule(x)\n        q(x)\n    } else {\n        not p(x)\n    }\n    forall(y: Thing) {\n        let z: Thing = y\n        if p(z) {\n            q(y)\n        }\n    }\n    let w: Thing satisfy {\n        w = x\n    }\n    p(w) implies q(w)\n}\nlet some(x: Thing) -> y: Thing satisfy {\n    q(y) or not p(x)\n} by {\n    p(x) implies q(x)\n}\n"),
    ("structures", "type Num: axiom\nlet zero: Num = axiom\nlet good: Num -> Bool = axiom\naxiom zero_good { good(zero) }\nstructure Pair {\n    first: Num\n    second: Num\n}\nstructure Good {\n    value: Num\n} constraint {\n    good(value)\n} by {\n    good(zero)\n}\nattributes Pair {\n    define swap(self) -> Pair { Pair.new(self.second, self.first) }\n    let origin: Pair = Pair.new(zero, zero)\n}\ntheorem twice(x: Pair) { x.swap.swap = x } by {\n    let Pair.new(u, v) = x\n    x.swap = Pair.new(v, u)\n}\ninductive Option[T] {\n    none\n    some(T)\n}\nlet wrap: Num -> Option[Good] = axiom\n"),
    ("generic", "inductive List[T] {\n    nil\n    cons(T, List[T])\n}\nattributes List[T] {\n    define map[U](self, f: T -> U) -> List[U] {\n        match self {\n            List.nil {\n                List.nil[U]\n            }\n            List.cons(head, tail) {\n                List.cons(f(head), tail.map(f))\n            }\n        }\n    }\n}\ndefine id[T](x: T) -> T { x }\ntheorem map_nil[T, U](f: T -> U) { List.nil[T].map(f) = List.nil[U] }\ndefine compose[A, B, C](f: B -> C, g: A -> B) -> A -> C {\n    function(x: A) { f(g(x)) }\n}\ntheorem id_left[A, B](f: A -> B, x: A) { compose(id[B], f)(x) = f(x) }\nlet pick[T]: List[T] -> Bool = function(l: List[T]) { l = List.nil[T] }\n"),
    ("classes", "typeclass M: Magma {\n    mul: (M, M) -> M\n    unit: M\n    left(x: M) {\n        M.unit * x = x\n    }\n}\ntypeclass G: Group extends Magma {\n    inverse: G -> G\n    inv(x: G) {\n        x.inverse * x = G.unit\n    }\n}\ninductive One {\n    it\n}\ninstance One: Magma {\n    define mul(self, other: One) -> One { One.it }\n    let unit: One = One.it\n}\ninstance One: Group {\n    define inverse(self) -> One { self }\n}\ntheorem unit_unit[G: Group] { G.unit * G.unit = G.unit }\nattributes M: Magma {\n    define square(self) -> M { self * self }\n}\ntheorem sq(x: One) { x.square = One.it } by {\n    match x {\n        One.it {\n            x.square = One.it\n        }\n    }\n}\n"),
    ("imports", "from home import Num, Kind, known\nlet one: Num = Num.next(Num.nought)\ntheorem uses(n: Num) {\n    n.plus(Num.nought) = n\n} by {\n    known(n)\n}\nattributes Num {\n    define half(self) -> Num {\n        self\n    }\n}\ntypeclass S: Sort extends Kind {\n    also: S\n}\ninstance Num: Sort {\n    let also: Num = one\n}\ntheorem picks { Num.pick = Num.nought }\nlemma small { one = one }\n"),
    ("indexed", "type Size: axiom\nlet more: Size -> Size = axiom\nlet below: (Size, Size) -> Bool = axiom\nstructure Fin[n: Size] {\n    value: Size\n} constraint {\n    below(value, n)\n}\nstructure Row[T, n: Size] {\n    at: Fin[n] -> T\n}\nattributes Fin[n: Size] {\n    define same(self, other: Fin[n]) -> Bool { self.value = other.value }\n}\ntheorem moved(n: Size, k: Size, x: Fin[n]) {\n    n = k implies true\n} by {\n    if n = k {\n        let y: Fin[k] = transport x\n        y.value = x.value\n    }\n}\ndefine first[T](n: Size, r: Row[T, n], i: Fin[n]) -> T {\n    r.at(i)\n}\ntype Shape[n: Size]: axiom\ntheorem any_shape(n: Size, s: Shape[n]) { s = s }\n"),
    ("choices", "type Item: axiom\nlet (left: Item, right: Item) satisfy {\n    left = right\n}\ninductive Tree {\n    leaf\n    node(Tree, Item)\n}\nlet fruit: Item = axiom\ndefine depth(t: Tree) -> Bool {\n    match t {\n        Tree.leaf { true }\n        Tree.node(a, b) { depth(a) and b = fruit }\n    }\n}\ndefine nearby(i: Item) -> Item {\n    let j: Item = i\n    let m: Item satisfy {\n        m = j\n    }\n    if m = i {\n        m\n    } else {\n        j\n    }\n}\nlet unpack(t: Tree) -> r: Item satisfy {\n    t = Tree.leaf or exists(s: Tree) { t = Tree.node(s, r) }\n} by {\n    if t = Tree.leaf {\n        t = Tree.leaf or exists(s: Tree) { t = Tree.node(s, fruit) }\n    } else {\n        let Tree.node(u, v) = t\n        t = Tree.node(u, v)\n    }\n}\ntheorem lists(f: (Item, Item) -> Bool) {\n    f(left, right) iff f(right)(left)\n}\ntheorem hard { left = fruit } by {\n    forall(t: Tree) {\n        match t {\n            Tree.leaf {\n                t = Tree.leaf\n            }\n            Tree.node(a, b) {\n                t != Tree.leaf\n            }\n        }\n    }\n}\n"),
];
