//! Building kernel objects (types, constants, terms, clauses) directly, and a finite-model
//! evaluator for kernel terms that knows nothing of the implementation beyond `decompose`.
use acorn::elaborator::acorn_type::{AcornType, Datatype};
use acorn::elaborator::names::ConstantName;
use acorn::kernel::atom::Atom;
use acorn::kernel::kernel_context::KernelContext;
use acorn::kernel::symbol::Symbol;
use acorn::kernel::symbol_table::NewConstantType;
use acorn::kernel::term::{Decomposition, Term};
use acorn::module::ModuleId;

/// A kernel context under construction: types by name, constants by name.
pub struct Sig {
    pub kc: KernelContext,
    pub consts: Vec<(String, Symbol, Term)>,
}

impl Sig {
    pub fn new(types: &[(&str, u8)]) -> Sig {
        let mut kc = KernelContext::new();
        for (name, arity) in types {
            let d = Datatype { module_id: ModuleId(0), name: name.to_string() };
            kc.type_store.add_type(&AcornType::Data(d.clone(), vec![]));
            kc.type_store.set_datatype_arity(&d, *arity);
        }
        Sig { kc, consts: vec![] }
    }

    pub fn ty(&self, name: &str) -> Term {
        if name == "Bool" {
            return Term::bool_type();
        }
        let d = Datatype { module_id: ModuleId(0), name: name.to_string() };
        Term::ground_type(self.kc.type_store.get_datatype_id(&d).unwrap_or_else(|| panic!("no type {name}")))
    }

    /// Types as "A -> B -> C" over names, right associative; parentheses allowed.
    pub fn ty_str(&self, s: &str) -> Term {
        let s = s.trim();
        let mut depth = 0;
        let b = s.as_bytes();
        for i in 0..b.len() {
            match b[i] {
                b'(' => depth += 1,
                b')' => depth -= 1,
                b'-' if depth == 0 => return Term::pi(self.ty_str(&s[..i]), self.ty_str(&s[i + 2..])),
                _ => {}
            }
        }
        if s.starts_with('(') {
            return self.ty_str(&s[1..s.len() - 1]);
        }
        if let Some(i) = s.find('[') {
            let head = self.ty(&s[..i]);
            let args = s[i + 1..s.len() - 1].split(',').map(|x| self.ty_str(x)).collect();
            return Term::type_application(head, args);
        }
        if let Some(v) = s.strip_prefix('x').and_then(|v| v.parse::<u16>().ok()) {
            return Term::atom(Atom::FreeVariable(v));
        }
        if s == "Type" {
            return Term::type_sort();
        }
        self.ty(s)
    }

    pub fn add(&mut self, name: &str, ty: &str) -> &mut Sig {
        let t = self.ty_str(ty);
        let s = self.kc.symbol_table.add_constant(ConstantName::Unqualified(ModuleId(0), name.to_string()), NewConstantType::Local, t.clone());
        self.consts.push((name.to_string(), s, t));
        self
    }

    pub fn sym(&self, name: &str) -> Symbol {
        self.consts.iter().find(|c| c.0 == name).unwrap_or_else(|| panic!("no constant {name}")).1
    }

    pub fn c(&self, name: &str) -> Term { Term::atom(Atom::Symbol(self.sym(name))) }

    pub fn const_type(&self, s: Symbol) -> Option<Term> {
        self.consts.iter().find(|c| c.1 == s).map(|c| c.2.clone())
    }

    /// Human-readable term.
    pub fn show(&self, t: &Term) -> String { show(self, t) }
}

fn show(sig: &Sig, t: &Term) -> String {
    match t.as_ref().decompose() {
        Decomposition::Atom(Atom::Symbol(s)) => sig.consts.iter().find(|c| c.1 == *s).map(|c| c.0.clone()).unwrap_or_else(|| format!("{s}")),
        Decomposition::Atom(a) => format!("{a}"),
        Decomposition::Application(f, x) => format!("{}({})", show(sig, &f.to_owned()), show(sig, &x.to_owned())),
        Decomposition::Pi(a, b) => format!("({}->{})", show(sig, &a.to_owned()), show(sig, &b.to_owned())),
        Decomposition::Lambda(a, b) => format!("(\\{}.{})", show(sig, &a.to_owned()), show(sig, &b.to_owned())),
        Decomposition::ForAll(a, b) => format!("(all {}.{})", show(sig, &a.to_owned()), show(sig, &b.to_owned())),
        Decomposition::Exists(a, b) => format!("(ex {}.{})", show(sig, &a.to_owned()), show(sig, &b.to_owned())),
    }
}
