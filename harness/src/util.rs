//! deterministic generators and structural comparison
use cryptovampire::formula::{
    formula::{ARichFormula, RichFormula},
    function::{builtin::*, Function},
    quantifier::Quantifier,
    sort::{builtins::*, Sort},
    variable::Variable,
};
use std::collections::HashSet;

pub type A = ARichFormula<'static>;
pub type V = Variable<'static>;
pub type Fun = Function<'static>;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        &l[self.below(l.len())]
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
}

/// what a run covered and what failed
pub struct Rep {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<String>,
    pub scale: usize,
    pub seed: u64,
}
impl Rep {
    pub fn check(&mut self, what: &str, key: &str, ok: bool) {
        self.evaluations += 1;
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (what, key).hash(&mut h);
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h.finish());
        }
        if self.samples.len() < 3 && key.len() > 12 {
            self.samples.push(format!("{what}: {key}"));
        }
        if !ok && self.fails.len() < 50 {
            let s = format!("{what}: {key}").replace('\n', " ");
            println!("FAIL {}", s.chars().take(600).collect::<String>());
            self.fails.push(s);
        }
    }
    /// run f, a panic counts as a failure
    pub fn guard(&mut self, what: &str, key: &str, f: impl FnOnce() -> bool) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        match r {
            Ok(b) => self.check(what, key, b),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.check(what, &format!("{key} [panicked: {m}]"), false)
            }
        }
    }
}

pub fn sorts() -> Vec<Sort<'static>> {
    vec![BOOL.clone(), MESSAGE.clone(), STEP.clone(), BITSTRING.clone(), CONDITION.clone()]
}
pub fn var(id: u32) -> V {
    let s = sorts();
    Variable { id, sort: s[id as usize % s.len()] }
}
pub fn funs() -> Vec<Fun> {
    vec![AND.clone(), OR.clone(), NOT.clone(), IMPLIES.clone(), EQUALITY.clone(), IF_THEN_ELSE.clone(), TRUE_F.clone(), HAPPENS.clone(), EQUALITY_TA.clone()]
}
pub fn fv(v: V) -> A {
    RichFormula::Var(v).into()
}
pub fn app(f: Fun, args: Vec<A>) -> A {
    RichFormula::Fun(f, args.into()).into()
}
pub fn quant(all: bool, vs: Vec<V>, a: A) -> A {
    let q = if all { Quantifier::Forall { variables: vs.into() } } else { Quantifier::Exists { variables: vs.into() } };
    RichFormula::Quantifier(q, a).into()
}

/// random formula over variables 0..nv
pub fn gen(r: &mut Rng, depth: usize, nv: u32, q: bool) -> A {
    let k = if depth == 0 { r.below(2) } else { r.below(7) };
    match k {
        0 => fv(var(r.below(nv as usize) as u32)),
        1 => app(TRUE_F.clone(), vec![]),
        5 | 6 if q => {
            let n = r.below(3);
            let vs = (0..n).map(|_| var(r.below(nv as usize) as u32)).collect();
            quant(r.bool(), vs, gen(r, depth - 1, nv, q))
        }
        _ => {
            let f = *r.pick(&funs());
            let n = r.below(4);
            app(f, (0..n).map(|_| gen(r, depth - 1, nv, q)).collect())
        }
    }
}

/// structural equality, sorts included
pub fn same(a: &A, b: &A) -> bool {
    same_r(a.as_ref(), b.as_ref())
}
pub fn same_v(a: &V, b: &V) -> bool {
    a.id == b.id && a.sort == b.sort
}
pub fn same_q(a: &Quantifier<'static>, b: &Quantifier<'static>) -> bool {
    let k = matches!((a, b), (Quantifier::Exists { .. }, Quantifier::Exists { .. }) | (Quantifier::Forall { .. }, Quantifier::Forall { .. }));
    let (x, y) = (qvars(a), qvars(b));
    k && x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same_v(x, y))
}
pub fn qvars(a: &Quantifier<'static>) -> Vec<V> {
    match a {
        Quantifier::Exists { variables } | Quantifier::Forall { variables } => variables.iter().copied().collect(),
    }
}
pub fn same_r(a: &RichFormula<'static>, b: &RichFormula<'static>) -> bool {
    match (a, b) {
        (RichFormula::Var(x), RichFormula::Var(y)) => same_v(x, y),
        (RichFormula::Fun(f, x), RichFormula::Fun(g, y)) => f == g && x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same(x, y)),
        (RichFormula::Quantifier(q, x), RichFormula::Quantifier(p, y)) => same_q(q, p) && same(x, y),
        _ => false,
    }
}
pub fn show(a: &A) -> String {
    match a.as_ref() {
        RichFormula::Var(v) => format!("X{}", v.id),
        RichFormula::Fun(f, x) => format!("{}({})", f.name(), x.iter().map(show).collect::<Vec<_>>().join(",")),
        RichFormula::Quantifier(q, x) => format!(
            "{}[{}].{}",
            if matches!(q, Quantifier::Forall { .. }) { "A" } else { "E" },
            qvars(q).iter().map(|v| v.id.to_string()).collect::<Vec<_>>().join(","),
            show(x)
        ),
    }
}
/// reference substitution
pub fn subst(a: &A, f: &dyn Fn(&V) -> A) -> A {
    match a.as_ref() {
        RichFormula::Var(v) => f(v),
        RichFormula::Fun(g, x) => app(*g, x.iter().map(|x| subst(x, f)).collect()),
        RichFormula::Quantifier(q, x) => RichFormula::Quantifier(q.clone(), subst(x, f)).into(),
    }
}
pub fn vars_of(a: &A, out: &mut Vec<V>) {
    match a.as_ref() {
        RichFormula::Var(v) => out.push(*v),
        RichFormula::Fun(_, x) => x.iter().for_each(|x| vars_of(x, out)),
        RichFormula::Quantifier(q, x) => {
            out.extend(qvars(q));
            vars_of(x, out)
        }
    }
}
