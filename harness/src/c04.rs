use crate::util::*;
use cryptovampire::formula::{
    formula::RichFormula,
    manipulation::*,
};
use utils::vecref::VecRefClone;

pub fn run(rep: &mut Rep) {
    let mut r = Rng(rep.seed ^ 0xC04);
    for k in 0..1500 * rep.scale {
        let f = gen(&mut r, 1 + k % 4, 5, true);
        let g = gen(&mut r, 1 + k % 2, 5, true);
        let h = gen(&mut r, 1, 5, false);
        let id = r.below(5) as u32;
        let id2 = r.below(5) as u32;
        let n = if k % 7 == 0 { u32::MAX - 2 } else { r.below(6) as u32 };
        let key = format!("{} with {}->{} {}->{} n={}", show(&f), id, show(&g), id2, show(&h), n);
        let one = OneVarSubst { id, f: g.clone() };
        let o1 = |v: &V| if v.id == id { g.clone() } else { fv(*v) };
        let e1 = subst(&f, &o1);
        rep.guard("OneVarSubst::apply", &key, || same(&one.apply(&f), &e1));
        rep.guard("OneVarSubst::new", &key, || same(&OneVarSubstF::new(var(id), g.clone()).apply(&f), &e1));
        rep.guard("apply_substitution2", &key, || same(&f.apply_substitution2(&one), &e1));
        let tr = |v: &V| fv(V { id: v.id.wrapping_add(n), sort: v.sort });
        rep.guard("Translate::apply", &key, || same(&Translate::new(n).apply(&f), &subst(&f, &tr)));
        rep.guard("translate_vars", &key, || same_r(&f.translate_vars(n), subst(&f, &tr).as_ref()));
        rep.guard("chain", &key, || {
            let b = OneVarSubst { id: id2, f: h.clone() };
            let o2 = |v: &V| if v.id == id2 { h.clone() } else { fv(*v) };
            same(&one.clone().chain(b).apply(&f), &subst(&e1, &o2))
        });
        rep.guard("translate", &key, || same(&one.clone().translate(n).apply(&f), &subst(&e1, &tr)));
        let list: Vec<(u32, A)> = vec![(id, g.clone()), (id2, h.clone()), (id, h.clone())];
        let list = &list[..r.below(4)];
        let ol = |v: &V| list.iter().find(|x| x.0 == v.id).map(|x| x.1.clone()).unwrap_or_else(|| fv(*v));
        let el = subst(&f, &ol);
        let key = format!("{key} list={}", list.iter().map(|x| format!("{}->{}", x.0, show(&x.1))).collect::<Vec<_>>().join(";"));
        let multi: MultipleVarSubst<A> = list.iter().cloned().collect();
        rep.guard("MultipleVarSubst::apply", &key, || same(&multi.apply(&f), &el));
        rep.guard("MultipleVarSubst::add", &key, || {
            let mut m = MultipleVarSubst::<A>::new();
            for (i, x) in list { m.add(*i, x.clone()) }
            same(&m.apply(&f), &el) && (0..6).all(|i| match (m.maybe_get(i), list.iter().find(|x| x.0 == i)) { (Some(a), Some(b)) => same(a, &b.1), (None, None) => true, _ => false })
        });
        let ovs: Vec<OneVarSubst<A>> = list.iter().cloned().map(OneVarSubst::from).collect();
        rep.guard("FrozenMultipleVarSubst::apply", &key, || same(&FrozenMultipleVarSubst::new(ovs.clone()).apply(&f), &el));
        rep.guard("FrozenMultipleVarSubst::from_iter", &key, || same(&ovs.iter().cloned().collect::<FrozenMultipleVarSubst<A>>().apply(&f), &el));
        let (ids, fs): (Vec<u32>, Vec<A>) = list.iter().cloned().unzip();
        rep.guard("FrozenSubst::apply", &key, || same(&FrozenSubst::new_from(ids.clone(), fs.clone()).apply(&f), &el));
        rep.guard("FrozenSubst::apply(refs)", &key, || same(&FrozenSubst::new_from(ids.as_slice(), fs.as_slice()).apply(&f), &el));
        if list.len() == 1 {
            rep.guard("FrozenSubst::apply(single)", &key, || {
                let (a, b): (VecRefClone<u32>, VecRefClone<A>) = (VecRefClone::Owned(ids[0]), VecRefClone::VecRef(utils::vecref::VecRef::Single(&fs[0])));
                same(&FrozenSubst::new_from(a, b).apply(&f), &el)
            });
        }
        rep.guard("FrozenSubst conversions", &key, || {
            let a: FrozenSubst<A> = FrozenMultipleVarSubst::new(ovs.clone()).into();
            let b: FrozenMultipleVarSubst<A> = FrozenSubst::new_from(ids.clone(), fs.clone()).into();
            same(&a.apply(&f), &el) && same(&b.apply(&f), &el)
        });
        let vl: Vec<(u32, V)> = list.iter().enumerate().map(|(i, x)| (x.0, var((i as u32 * 7 + id2) % 9))).collect();
        let ov = |v: &V| vl.iter().find(|x| x.0 == v.id).map(|x| fv(x.1)).unwrap_or_else(|| fv(*v));
        rep.guard("FrozenMultipleVarSubst<Variable>", &key, || {
            let s: FrozenMultipleVarSubst<V> = vl.iter().cloned().map(OneVarSubst::from).collect();
            same(&s.apply(&f), &subst(&f, &ov)) && (0..6).all(|i| same(&fv(s.get_var(&var(i))), &ov(&var(i))))
        });
        rep.guard("apply_substitution", &key, || same(&RichFormula::clone(&f).apply_substitution(ids.iter().copied(), fs.iter()), &el));
        rep.guard("apply", &key, || same(&RichFormula::clone(&f).apply(|v| o1(v)), &e1));
        rep.guard("apply_some", &key, || same(&RichFormula::clone(&f).apply_some(|v| (v.id == id).then(|| g.clone())), &e1));
        rep.guard("map identity", &key, || same(&RichFormula::clone(&f).map(&mut |x: RichFormula<'static>| x.into_arc()), &f));
        rep.guard("get_var/variable add", &key, || { let v = var(id) + 3; v.id == id + 3 && v.sort == var(id).sort });
    }
}
