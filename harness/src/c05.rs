//! unifiers against the textbook algorithm on sets of equations
use crate::util::*;
use cryptovampire::formula::{
    formula::RichFormula,
    function::builtin::*,
    manipulation::{Substitution, Unifier},
    sort::builtins::BOOL,
};

const N: u32 = 8;
type Eqs = Vec<(A, A)>;

fn v(id: u32) -> V {
    V { id, sort: BOOL.clone() }
}
fn resolve(a: &A, b: &[(u32, A)]) -> A {
    match a.as_ref() {
        RichFormula::Var(x) => match b.iter().find(|p| p.0 == x.id) {
            Some((_, t)) => resolve(t, b),
            None => a.clone(),
        },
        RichFormula::Fun(f, l) => app(*f, l.iter().map(|x| resolve(x, b)).collect()),
        _ => a.clone(),
    }
}
fn has(a: &A, id: u32) -> bool {
    let mut l = vec![];
    vars_of(a, &mut l);
    l.iter().any(|x| x.id == id)
}
/// a triangular most general solution of the equations between finite terms
fn solve(eqs: &Eqs) -> Option<Vec<(u32, A)>> {
    let mut todo: Eqs = eqs.clone();
    let mut b: Vec<(u32, A)> = vec![];
    while let Some((x, y)) = todo.pop() {
        let (x, y) = (resolve(&x, &b), resolve(&y, &b));
        match (x.as_ref(), y.as_ref()) {
            (RichFormula::Var(p), RichFormula::Var(q)) if p.id == q.id => (),
            (RichFormula::Var(p), _) => {
                if has(&y, p.id) {
                    return None;
                }
                b.push((p.id, y));
            }
            (_, RichFormula::Var(_)) => todo.push((y, x)),
            (RichFormula::Fun(f, l), RichFormula::Fun(g, m)) => {
                if f != g || l.len() != m.len() {
                    return None;
                }
                todo.extend(l.iter().cloned().zip(m.iter().cloned()));
            }
            _ => return None,
        }
    }
    Some(b)
}
/// every assignment of finite terms that satisfies `a` satisfies `b`
fn entails(a: &Eqs, b: &Eqs) -> bool {
    solve(a).map_or(true, |s| b.iter().all(|(x, y)| same(&resolve(x, &s), &resolve(y, &s))))
}
fn term(r: &mut Rng, d: usize, from: u32, to: u32) -> A {
    match if d == 0 { r.below(3) } else { r.below(6) } {
        0 | 1 => fv(v(from + r.below((to - from) as usize) as u32)),
        2 => app(if r.below(3) == 0 { FALSE_F.clone() } else { TRUE_F.clone() }, vec![]),
        3 => app(NOT.clone(), vec![term(r, d - 1, from, to)]),
        k => app(if k == 4 { AND.clone() } else { OR.clone() }, (0..1 + r.below(3)).map(|_| term(r, d - 1, from, to)).collect()),
    }
}
/// the same shape, some subterms replaced
fn vary(r: &mut Rng, a: &A, from: u32, to: u32) -> A {
    if r.below(5) == 0 {
        return term(r, 1, from, to);
    }
    match a.as_ref() {
        RichFormula::Fun(f, l) => app(*f, l.iter().map(|x| vary(r, x, from, to)).collect()),
        _ => {
            let d = r.below(2);
            term(r, d, from, to)
        }
    }
}
fn bindings(u: &Unifier<'static>) -> Eqs {
    let mut out = vec![];
    for id in 0..N {
        for t in [u.left().get(&v(id)), u.right().get(&v(id))] {
            if !matches!(t.as_ref(), RichFormula::Var(w) if w.id == id) {
                out.push((fv(v(id)), t));
            }
        }
    }
    out
}
fn sh(e: &Eqs) -> String {
    e.iter().map(|(a, b)| format!("{}={}", show(a), show(b))).collect::<Vec<_>>().join(";")
}

fn on(rep: &mut Rep, l: &A, r: &A, l2: &A, r2: &A) {
    let key = format!("{} and {}", show(l), show(r));
    let pair = vec![(l.clone(), r.clone())];
    let (a, b) = (l.clone(), r.clone());
    let u = match std::panic::catch_unwind(move || Unifier::mgu(&a, &b)) {
        Ok(u) => u,
        Err(_) => return rep.check("mgu", &format!("{key} panics"), false),
    };
    let Some(u) = u else {
        return rep.check("mgu refuses", &key, solve(&pair).is_none());
    };
    let e = bindings(&u);
    let key = format!("{key} gives {}", sh(&e));
    rep.check("mgu is sufficient", &key, entails(&e, &pair));
    rep.check("mgu is necessary", &key, entails(&pair, &e));
    let mut ids: Vec<String> = e.iter().map(|x| show(&x.0)).collect();
    ids.sort();
    let clash = ids.windows(2).any(|w| w[0] == w[1]);
    rep.guard("as_equalities", &key, || match u.as_equalities() {
        Err(_) => clash,
        Ok(q) => !clash && q.len() == e.len() && e.iter().all(|(x, t)| q.iter().any(|q| matches!(q.as_ref(), RichFormula::Fun(_, l) if l.len() == 2 && same(&l[0], x) && same(&l[1], t)))),
    });
    if solve(&e).is_some() {
        for (x, y) in [(l, r), (l2, r2), (l, r2), (l2, r), (r, l)] {
            rep.guard("does_unify", &format!("{} and {} under {}", show(x), show(y), sh(&e)), || !u.does_unify(x, y) || entails(&e, &vec![(x.clone(), y.clone())]));
        }
        rep.check("is_unifying_to_variable", &key, match u.is_unifying_to_variable() {
            Some(o) => e.len() == 1 && show(&e[0].0) == format!("X{}", o.id) && same(&e[0].1, &o.f),
            None => true,
        });
    }
}

pub fn run(rep: &mut Rep) {
    let mut r = Rng(rep.seed ^ 0xC05);
    // all small pairs
    let (x, y) = (|i: u32| fv(v(i)), |i: u32| fv(v(i + 4)));
    let c = || app(TRUE_F.clone(), vec![]);
    let n = |a: A| app(NOT.clone(), vec![a]);
    let ls = [x(0), x(1), c(), n(x(0)), n(x(1)), n(c())];
    let rs = [y(0), y(1), c(), n(y(0)), n(y(1)), n(c())];
    for k in 0..6usize.pow(6) {
        let d: Vec<usize> = (0..6).map(|i| k / 6usize.pow(i) % 6).collect();
        let l = app(AND.clone(), (0..3).map(|i| ls[d[i]].clone()).collect());
        let q = app(AND.clone(), (3..6).map(|i| rs[d[i]].clone()).collect());
        on(rep, &l, &q, &ls[d[0]], &rs[d[5]]);
    }
    for k in 0..20000 * rep.scale {
        // apart, or sharing variables
        let (lo, hi) = if k % 4 == 0 { (0, 4) } else { (4, 8) };
        let d = 1 + k % 4;
        let l = term(&mut r, d, 0, 4);
        let q = if k % 3 == 0 { term(&mut r, d, lo, hi) } else { vary(&mut r, &l, lo, hi) };
        let (l2, q2) = (term(&mut r, 1, 0, 4), term(&mut r, 1, lo, hi));
        on(rep, &l, &q, &l2, &q2);
    }
}
