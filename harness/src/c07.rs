//! fresh variables: what is computed as fresh is, and no generated axiom rebinds a variable that is in scope
use crate::{c03::{parse, S}, e2e::*, util::*};
use cryptovampire::formula::{
    formula::{ARichFormula, RichFormula},
    sort::Sort,
    variable::{sorts_to_variables, IntoVariableIter, Variable},
};
use logic_formula::{iterators::UsedVariableIterator, Formula};

/// occurrences of variables as terms, in any order
fn occ(a: &A, out: &mut Vec<u32>) {
    match a.as_ref() {
        RichFormula::Var(v) => out.push(v.id),
        RichFormula::Fun(_, x) => x.iter().for_each(|x| occ(x, out)),
        RichFormula::Quantifier(_, x) => occ(x, out),
    }
}
fn free(a: &A, bound: &mut Vec<u32>, out: &mut Vec<u32>) {
    match a.as_ref() {
        RichFormula::Var(v) if bound.contains(&v.id) => (),
        RichFormula::Var(v) => out.push(v.id),
        RichFormula::Fun(_, x) => x.iter().for_each(|x| free(x, bound, out)),
        RichFormula::Quantifier(q, x) => {
            let n = bound.len();
            bound.extend(qvars(q).iter().map(|v| v.id));
            free(x, bound, out);
            bound.truncate(n);
        }
    }
}
fn sorted(i: impl IntoIterator<Item = u32>) -> Vec<u32> {
    let mut v: Vec<u32> = i.into_iter().collect();
    v.sort();
    v
}
fn set(i: impl IntoIterator<Item = u32>) -> Vec<u32> {
    let mut v = sorted(i);
    v.dedup();
    v
}
/// one that is the smallest fresh identifier, or any greater one
fn fresh(x: u32, low: Option<u32>, ids: &[u32]) -> bool {
    low.map_or(true, |m| x > m) && ids.iter().all(|i| x > *i)
}

pub fn run(rep: &mut Rep) {
    let mut r = Rng(rep.seed.wrapping_mul(31) + 7);
    let big = [0u32, 1, 2, 3, 7, 100, 65535, 65536, 1 << 31, u32::MAX - 1];
    for n in 0..6000 * rep.scale {
        // lists of variables
        let l: Vec<V> = (0..n % 7).map(|_| if r.below(4) == 0 { let i = *r.pick(&big); var(i) } else { var(r.below(12) as u32) }).collect();
        let ids: Vec<u32> = l.iter().map(|v| v.id).collect();
        let m = if r.below(3) == 0 { *r.pick(&big) } else { r.below(12) as u32 };
        let k = format!("{ids:?} from {m}");
        let (a, b) = (l.clone(), ids.clone());
        rep.guard("max_var of variables", &k, move || fresh(a.max_var(), None, &b));
        let (a, b) = (l.clone(), ids.clone());
        rep.guard("max_var of references to variables", &k, move || fresh(a.iter().max_var(), None, &b));
        let (a, b) = (l.clone(), ids.clone());
        rep.guard("max_var_or_max of variables", &k, move || fresh(a.iter().max_var_or_max(m), Some(m), &b));
        let (a, b) = (l.clone(), ids.clone());
        rep.guard("vars_id_iter", &k, move || a.vars_id_iter().collect::<Vec<_>>() == b);
        let (a, b) = (l.clone(), ids.clone());
        rep.guard("contains_var", &k, move || a.contains_var(&var(m)) == b.contains(&m));
        // nested lists
        let c: Vec<Vec<V>> = l.chunks(2).map(|x| x.to_vec()).collect();
        let b = ids.clone();
        rep.guard("max_var_or_max of nested lists", &k, move || fresh(c.clone().max_var_or_max(m), Some(m), &b) && fresh(c.max_var(), None, &b));
        // formulas
        let fs: Vec<A> = (0..r.below(4)).map(|_| { let nv = 1 + r.below(9) as u32; let d = r.below(4); gen(&mut r, d, nv, true) }).collect();
        let mut o = vec![];
        fs.iter().for_each(|f| occ(f, &mut o));
        let k = format!("[{}] from {m}", fs.iter().map(show).collect::<Vec<_>>().join("; "));
        let (a, b) = (fs.clone(), o.clone());
        rep.guard("max_var of formulas", &k, move || fresh(a.iter().max_var(), None, &b));
        let (a, b) = (fs.clone(), o.clone());
        rep.guard("max_var_or_max of formulas", &k, move || fresh(a.iter().max_var_or_max(m), Some(m), &b));
        let (a, b) = (fs.clone(), o.clone());
        rep.guard("used variables of formulas", &k, move || sorted(UsedVariableIterator::with(a.iter()).map(|v| v.id)) == sorted(b));
        let (a, b) = (fs.clone(), o.clone());
        rep.guard("max_var of the used variables", &k, move || fresh(UsedVariableIterator::with(a.iter()).max_var(), None, &b));
        let (a, b) = (fs.clone(), o.clone());
        rep.guard("contains_var of formulas", &k, move || a.iter().contains_var(&var(m)) == b.contains(&m));
        for f in &fs {
            let mut o = vec![];
            occ(f, &mut o);
            let mut fr = vec![];
            free(f, &mut vec![], &mut fr);
            let k = show(f);
            let x: (A, A) = (f.clone(), f.clone());
            let b = o.clone();
            rep.guard("used variables of a shared formula", &k, move || sorted((&x.0).used_vars_iter().map(|v| v.id)) == sorted(b.clone()) && sorted(x.1.used_vars_iter().map(|v| v.id)) == sorted(b));
            let (x, b) = (f.clone(), o.clone());
            rep.guard("used variables of a formula", &k, move || sorted(x.as_ref().used_vars_iter().map(|v: Variable| v.id)) == sorted(b));
            let (x, b) = (f.clone(), fr.clone());
            rep.guard("free variables of a formula", &k, move || set((&x).free_vars_iter().map(|v| v.id)) == set(b.clone()) && set(x.as_ref().free_vars_iter().map(|v: Variable| v.id)) == set(b));
        }
        // lists of sorts
        let ss: Vec<Sort<'static>> = (0..n % 5).map(|_| *r.pick(&sorts())).collect();
        let from = r.below(50) as u32;
        let k = format!("{} sorts from {from}", ss.len());
        rep.guard("sorts_to_variables", &k, move || {
            let v: Vec<Variable> = sorts_to_variables(from, ss.iter());
            v.len() == ss.len() && v.iter().enumerate().all(|(i, v)| v.id == from + i as u32 && v.sort == ss[i])
        });
    }
    ta(rep, &mut r);
    whole(rep);
}

/// applications of ta quantifiers: their arguments, not the variables of their definition, are what occurs
fn ta(rep: &mut Rep, r: &mut Rng) {
    use cryptovampire::{container::ScopedContainer, formula::{function::Function, sort::builtins::MESSAGE, utils::Applicable}};
    for n in 0..300 * rep.scale {
        let nv = 2 + r.below(6) as u32;
        let bound: Vec<u32> = (0..1 + n as u32 % 2).map(|i| 40 + i).collect();
        let args: Vec<u32> = (0..8).map(|_| if r.bool() { r.below(8) as u32 } else { 50 + r.below(50) as u32 }).collect();
        let k = format!("find among {nv} variables {bound:?} applied to {args:?}");
        rep.guard("variables of an applied ta quantifier", &k, || {
            ScopedContainer::scoped(|c| {
                let c = &*c;
                let v = |i: u32| ARichFormula::from(Variable { id: i, sort: MESSAGE.clone() });
                let (f, fr): (Function, _) = Function::new_find_such_that(c, bound.iter().map(|i| Variable { id: *i, sort: MESSAGE.clone() }), v(0), v(nv - 1), v(bound[0]));
                let args: Vec<u32> = args[..fr.len()].to_vec();
                let a: ARichFormula = f.f(args.iter().map(|i| v(*i)));
                // a lazy enumeration: it need not end when it is wrong
                let occ: Vec<u32> = (&a).vars_iter().take(1000).map(|v| v.id).collect();
                if occ.len() >= 1000 {
                    return false;
                }
                let m = (&a).max_var();
                args.iter().all(|i| occ.contains(i) && m > *i)
            })
        });
    }
}

// ------------------------------------------------------------------ whole problems

struct G<'a> {
    r: &'a mut Rng,
    names: usize,
    /// steps already declared, with their number of parameters
    steps: Vec<(String, usize)>,
    cells: usize,
    int_ctxt: bool,
    /// every step is declared
    done: bool,
}
impl G<'_> {
    fn fresh(&mut self, n: usize) -> Vec<String> {
        (0..n).map(|_| { self.names += 1; format!("x{}", self.names) }).collect()
    }
    fn binders(vs: &[String], sort: &str) -> String {
        format!("({})", vs.iter().map(|v| format!("{v}:{sort}")).collect::<Vec<_>>().join(", "))
    }
    fn index(&mut self, sc: &[String]) -> Option<String> {
        if sc.is_empty() { None } else { Some(self.r.pick(sc).clone()) }
    }
    fn step(&mut self, sc: &[String]) -> Option<String> {
        let (s, n) = self.r.pick(&self.steps.clone()).clone();
        if n == 0 {
            return Some(s);
        }
        let a: Option<Vec<String>> = (0..n).map(|_| self.index(sc)).collect();
        a.map(|a| format!("{s}({})", a.join(", ")))
    }
    fn term(&mut self, d: usize, sc: &[String], top: bool) -> String {
        let leaf = |g: &mut Self| match g.index(sc) {
            Some(i) if g.r.below(3) > 0 => format!("n({i})"),
            _ => g.r.pick(&["ini", "n0"]).to_string(),
        };
        if d == 0 {
            return leaf(self);
        }
        match self.r.below(if top { 10 } else { 9 }) {
            0 | 1 => format!("a({}, {})", self.term(d - 1, sc, top), self.term(d - 1, sc, top)),
            2 => {
                let t = self.term(d - 1, sc, top);
                let k = self.key(sc);
                if self.int_ctxt { format!("enc({t}, rd, {k})") } else { format!("hash({t}, {k})") }
            }
            3 | 4 => {
                let n = 1 + self.r.below(3);
                let vs = self.fresh(n);
                let mut sc2 = sc.to_vec();
                sc2.extend(vs.iter().cloned());
                format!("try find {} such that {{ {} }} then {{ {} }} else {{ {} }}", Self::binders(&vs, "index"), self.cond(d - 1, &sc2, top), self.term(d - 1, &sc2, top), self.term(d - 1, sc, top))
            }
            5 => format!("if {} {{ {} }} else {{ {} }}", self.cond(d - 1, sc, top), self.term(d - 1, sc, top), self.term(d - 1, sc, top)),
            6 if self.int_ctxt => format!("dec({}, {})", self.term(d - 1, sc, top), self.key(sc)),
            7 if top => match self.step(sc) {
                Some(s) => format!("{}({s})", if self.done { *self.r.pick(&["input", "msg!"]) } else { "input" }),
                None => leaf(self),
            },
            8 if top && self.cells > 0 => match (self.step(sc), self.index(sc)) {
                (Some(s), Some(i)) => format!("c{}({i}, {s})", self.r.below(self.cells)),
                _ => leaf(self),
            },
            _ => leaf(self),
        }
    }
    fn key(&mut self, sc: &[String]) -> String {
        match self.index(sc) {
            Some(i) if self.r.below(3) == 0 => format!("kk({i})"),
            _ => "key".into(),
        }
    }
    fn cond(&mut self, d: usize, sc: &[String], top: bool) -> String {
        match self.r.below(if d == 0 { 2 } else { 6 }) {
            0 => "true".into(),
            1 => format!("({} == {})", self.term(d / 2, sc, top), self.term(d / 2, sc, top)),
            2 => format!("({} && {})", self.cond(d - 1, sc, top), self.cond(d - 1, sc, top)),
            3 => format!("not({})", self.cond(d - 1, sc, top)),
            4 => {
                let n = 1 + self.r.below(3);
                let vs = self.fresh(n);
                let mut sc2 = sc.to_vec();
                sc2.extend(vs.iter().cloned());
                format!("{} {} {{ {} }}", self.r.pick(&["exists", "forall"]), Self::binders(&vs, "index"), self.cond(d - 1, &sc2, top))
            }
            _ => {
                let (x, k) = (self.term(d - 1, sc, top), self.key(sc));
                if self.int_ctxt { format!("(dec({x}, {k}) == fail)") } else { format!("verify({x}, {}, {k})", self.term(d - 1, sc, top)) }
            }
        }
    }
}

fn problem(r: &mut Rng) -> String {
    let int_ctxt = r.below(3) == 0;
    let cells = r.below(3);
    let mut g = G { r, names: 0, steps: vec![], cells, int_ctxt, done: false };
    let mut t = String::from("type index;\nfun a(Message, Message):Message\nfun key:Name\nfun rd:Name\nfun n0:Name\nfun kk(index):Name\nfun n(index):Name\nfun ini:Message\n");
    t += if int_ctxt { "fun enc(Message, Message, Message):Message\nfun dec(Message, Message):Message\nfun fail:Message\n" } else { "fun hash(Message, Message):Message\nfun verify(Message, Message, Message):Bool\n" };
    for c in 0..cells {
        t += &format!("cell c{c}(index):Message\n");
    }
    let n = 1 + g.r.below(3);
    for k in 0..n {
        let np = g.r.below(5);
        let ps = g.fresh(np);
        g.steps.push((format!("s{k}"), np));
        let (c, m) = (g.cond(2, &ps, true), g.term(3, &ps, true));
        // `in` stands for the input of the step
        t += &format!("step s{k}{} {{ {c} }} {{ {m} }}", if np == 0 { String::new() } else { G::binders(&ps, "index") });
        if cells > 0 && np > 0 && g.r.bool() {
            let fv = g.r.below(2);
            let vs = g.fresh(fv);
            let mut sc = ps.clone();
            sc.extend(vs.iter().cloned());
            let c = g.r.below(cells);
            let i = g.index(&sc).unwrap();
            t += &format!(" {{ {} c{c}({i}) <- {} }}", if fv == 0 { String::new() } else { G::binders(&vs, "index") }, g.term(2, &sc, true));
        }
        t += "\n";
    }
    g.done = true;
    for k in ["assert", "query"] {
        let np = 1 + g.r.below(3);
        let ps = g.fresh(np);
        let c = g.cond(3, &ps, true);
        t += &format!("{k} {} {} {{ ({c} || {}) }}\n", g.r.pick(&["forall", "exists"]), G::binders(&ps, "index"), g.cond(2, &ps, true));
    }
    t += "assert-crypto nonce;\n";
    if g.r.bool() && cells > 0 {
        t += "assert-crypto memory_cell;\n";
    }
    t += if int_ctxt { "assert-crypto int-ctxt enc dec fail;\n" } else { *g.r.pick(&["assert-crypto euf-cma hash verify;\n", "assert-crypto uf-cma hash verify;\n", "assert-crypto euf-cma hash verify [hmac];\n"]) };
    t
}

/// variables that a quantifier binds again although they are in scope, and variables no quantifier binds
fn rebound(x: &S, scope: &mut Vec<String>, bad: &mut Vec<String>) {
    match x {
        S::A(v) => {
            let b: Vec<char> = v.chars().collect();
            if b.len() >= 3 && b[1] == 'X' && b[2..].iter().all(|c| c.is_ascii_digit()) && !scope.contains(v) {
                bad.push(format!("{v} is not bound"));
            }
        }
        S::L(l) => match l.first() {
            Some(S::A(h)) if h == "forall" || h == "exists" => {
                let n = scope.len();
                if let S::L(vs) = &l[1] {
                    for v in vs {
                        if let S::L(v) = v {
                            if let S::A(v) = &v[0] {
                                if scope.contains(v) {
                                    bad.push(format!("{v} is bound twice"));
                                }
                                scope.push(v.clone());
                            }
                        }
                    }
                }
                l[2..].iter().for_each(|x| rebound(x, scope, bad));
                scope.truncate(n);
            }
            _ => l.iter().for_each(|x| rebound(x, scope, bad)),
        },
    }
}

fn whole(rep: &mut Rep) {
    let main: &[&[&str]] = &[&[], &["--symbolic"], &["--skolemnise"], &["--no-preprocessing"], &["--symbolic", "--no-preprocessing"]];
    let mut r = Rng(rep.seed ^ 0x707);
    let items: Vec<(&[&str], String)> = (0..400 * rep.scale).map(|i| (main[i % main.len()], problem(&mut r))).collect();
    let res = par(&items, |(m, text)| {
        let dir = tempfile::tempdir().unwrap();
        let p = dir.path().join("o.smt");
        let ps = p.to_string_lossy().into_owned();
        let mut args: Vec<&str> = m.to_vec();
        args.extend(["to-file", "--cvc5", "-o", &ps]);
        if let Err(e) = go(&args, text) {
            return vec![format!("failed: {}", e.lines().next().unwrap_or(""))];
        }
        let cmds = match parse(&std::fs::read_to_string(&p).unwrap_or_default()) {
            Ok(x) => x,
            Err(e) => return vec![e],
        };
        let mut bad = vec![];
        for c in &cmds {
            if matches!(c, S::L(l) if matches!(&l[0], S::A(h) if h.starts_with("assert"))) {
                rebound(c, &mut vec![], &mut bad);
            }
        }
        bad
    });
    for ((m, text), bad) in items.iter().zip(res) {
        let key = format!("{}: {}: {}", m.join(" "), bad.join(", "), text.split("ini:Message").last().unwrap_or(""));
        rep.check("axioms of a problem", &key, bad.is_empty());
    }
}
