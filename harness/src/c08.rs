use crate::util::*;
use cryptovampire::formula::{
    formula::{ands, ands_owned, exists, forall, meq, ors, ors_owned, ARichFormula, RichFormula},
    function::{builtin::*, inner::booleans::{Booleans, Connective}, InnerFunction},
    quantifier::Quantifier,
    sort::builtins::*,
    utils::Applicable,
};
use cryptovampire::{mexists, mforall};

fn r(a: &A) -> RichFormula<'static> {
    a.as_ref().clone()
}

pub fn run(rep: &mut Rep) {
    let conn = |f: &Fun| match f.as_inner() {
        InnerFunction::Bool(Booleans::Connective(c)) => Some(c.clone()),
        _ => None,
    };
    rep.guard("builtin symbols", "AND OR NOT IMPLIES TRUE FALSE EQUALITY", || {
        conn(&AND) == Some(Connective::And)
            && conn(&OR) == Some(Connective::Or)
            && conn(&NOT) == Some(Connective::Not)
            && conn(&IMPLIES) == Some(Connective::Implies)
            && conn(&TRUE_F) == Some(Connective::True)
            && conn(&FALSE_F) == Some(Connective::False)
            && matches!(EQUALITY.as_inner(), InnerFunction::Bool(Booleans::Equality(_)))
    });
    rep.guard("TRUE/FALSE", "constants", || same_r(&TRUE, &app(*TRUE_F, vec![])) && same_r(&FALSE, &app(*FALSE_F, vec![])) && same(&TRUE_ARC, &app(*TRUE_F, vec![])) && same(&A::default(), &app(*TRUE_F, vec![])));
    let mut g = Rng(rep.seed ^ 0xC08);
    for k in 0..800 * rep.scale {
        let n = k % 5;
        let l: Vec<A> = (0..n).map(|_| gen(&mut g, 2, 5, true)).collect();
        let lo: Vec<RichFormula<'static>> = l.iter().map(r).collect();
        let (a, b) = (gen(&mut g, 2, 5, true), gen(&mut g, 2, 5, true));
        let vs: Vec<V> = (0..n).map(|_| var(g.below(7) as u32)).collect();
        let key = format!("[{}] {} {} vars {:?}", l.iter().map(show).collect::<Vec<_>>().join(" ; "), show(&a), show(&b), vs.iter().map(|v| v.id).collect::<Vec<_>>());
        rep.guard("ands", &key, || same(&ands(l.clone()), &app(*AND, l.clone())));
        rep.guard("ors", &key, || same(&ors(l.clone()), &app(*OR, l.clone())));
        rep.guard("ands_owned", &key, || same_r(&ands_owned(lo.clone()), &app(*AND, l.clone())));
        rep.guard("ors_owned", &key, || same_r(&ors_owned(lo.clone()), &app(*OR, l.clone())));
        rep.guard("meq", &key, || same(&meq(&a, b.clone()), &app(*EQUALITY, vec![a.clone(), b.clone()])) && same(&meq(r(&a), r(&b)), &app(*EQUALITY, vec![a.clone(), b.clone()])));
        rep.guard("operators (shared)", &key, || {
            let p = || vec![a.clone(), b.clone()];
            same(&(a.clone() & b.clone()), &app(*AND, p())) && same(&(a.clone() | b.clone()), &app(*OR, p())) && same(&(a.clone() >> b.clone()), &app(*IMPLIES, p())) && same(&!a.clone(), &app(*NOT, vec![a.clone()]))
        });
        rep.guard("operators (owned)", &key, || {
            let p = || vec![a.clone(), b.clone()];
            same_r(&(r(&a) & r(&b)), &app(*AND, p())) && same_r(&(r(&a) | r(&b)), &app(*OR, p())) && same_r(&(r(&a) >> r(&b)), &app(*IMPLIES, p())) && same_r(&!r(&a), &app(*NOT, vec![a.clone()]))
        });
        for all in [true, false] {
            let e = if n == 0 { a.clone() } else { quant(all, vs.clone(), a.clone()) };
            let f = |vs: Vec<V>, a: A| if all { forall(vs, a) } else { exists(vs, a) };
            rep.guard(if all { "forall" } else { "exists" }, &key, || same(&f(vs.clone(), a.clone()), &e));
            rep.guard("quantify (owned body)", &key, || same(&(if all { forall(vs.iter().cloned(), r(&a)) } else { exists(vs.iter().cloned(), r(&a)) }), &e));
            rep.guard("quantify (variable body)", &key, || {
                let v = var(k as u32 % 9);
                let e = if n == 0 { fv(v) } else { quant(all, vs.clone(), fv(v)) };
                same(&(if all { forall(vs.clone(), v) } else { exists(vs.clone(), &v) }), &e)
            });
            rep.guard("Quantifier constructors", &key, || {
                let q = if all { Quantifier::forall(vs.clone()) } else { Quantifier::exists(vs.clone()) };
                matches!(q, Quantifier::Forall { .. }) == all && qvars(&q).iter().zip(vs.iter()).all(|(x, y)| same_v(x, y)) && q.get_variables().len() == n
            });
        }
        rep.guard("mforall!/mexists! with a list", &key, || {
            let e = |all| if n == 0 { a.clone() } else { quant(all, vs.clone(), a.clone()) };
            same(&mforall!(vs.clone(), { a.clone() }), &e(true)) && same(&mexists!(vs.clone(), { a.clone() }), &e(false))
        });
        rep.guard("mforall!/mexists! named", &key, || {
            let mk = |i, s| V { id: i, sort: s };
            let (x, y) = (mk(346, STEP.as_sort()), mk(4398, BOOL.as_sort()));
            same(&mforall!(p!346:STEP.as_sort(), q!4398:BOOL.as_sort(); { meq(p, q) }), &quant(true, vec![x, y], app(*EQUALITY, vec![fv(x), fv(y)])))
                && same(&mexists!(p!346:STEP.as_sort(), q!4398:BOOL.as_sort(); { meq(q, p) }), &quant(false, vec![x, y], app(*EQUALITY, vec![fv(y), fv(x)])))
        });
        let f = *g.pick(&funs());
        rep.guard("Function::apply/f", &key, || same_r(&f.apply(l.clone()), &app(f, l.clone())) && same(&f.f(l.clone()), &app(f, l.clone())) && same(&f.f(lo.clone()), &app(f, l.clone())) && same_r(&f.apply_rf(lo.clone()), &app(f, l.clone())));
        rep.guard("Function::f on variables", &key, || same(&f.f(vs.iter()), &app(f, vs.iter().map(|v| fv(*v)).collect())) && same(&f.f(vs.clone()), &app(f, vs.iter().map(|v| fv(*v)).collect())));
        rep.guard("to_const", &key, || same(&f.to_const(), &app(f, vec![])));
        rep.guard("conversions", &key, || {
            let c: ARichFormula = (&a).into();
            let d: A = r(&a).into();
            let rr = r(&a);
            let e: A = (&rr).into();
            same(&c, &a) && same(&d, &a) && same(&e, &a) && same(&rr.clone_as_arc(), &a) && same(&rr.clone().into_arc(), &a) && same_r(&a.clone().owned_into_inner(), &a) && same_r(&A::from(rr.clone()).owned_into_inner(), &rr) && same_r(&a.into_inner(), &rr) && same(&a.shallow_copy(), &a)
        });
    }
}
