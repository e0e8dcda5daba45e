use crate::util::*;
use std::sync::Arc;
use utils::arc_into_iter::{ArcIntoIter, ClonableArc};
use utils::vecref::{IterVecRef, IterVecRefClone, VecRef, VecRefClone};

/// every way to drive a double-ended iterator agrees with the list
fn drive<T: PartialEq + Clone + std::fmt::Debug, I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone>(rep: &mut Rep, what: &str, key: &str, it: I, l: &[T], g: &mut Rng) {
    rep.guard(&format!("{what}: forward"), key, || {
        let mut v = vec![];
        let mut i = it.clone();
        loop {
            if i.size_hint() != (l.len() - v.len(), Some(l.len() - v.len())) || i.len() != l.len() - v.len() {
                return false;
            }
            match i.next() {
                Some(e) if v.len() < l.len() => v.push(e),
                Some(_) => return false,
                None => break,
            }
        }
        v == l && i.next().is_none() && i.next_back().is_none() && i.next().is_none() && i.size_hint() == (0, Some(0))
    });
    rep.guard(&format!("{what}: backward"), key, || {
        let mut v: Vec<T> = vec![];
        let mut i = it.clone();
        while let Some(e) = i.next_back() {
            v.push(e);
            if v.len() > l.len() || i.size_hint() != (l.len() - v.len(), Some(l.len() - v.len())) {
                return false;
            }
        }
        v.reverse();
        v == l && i.next().is_none() && i.next_back().is_none()
    });
    let s: Vec<bool> = (0..l.len() + 2).map(|_| g.bool()).collect();
    rep.guard(&format!("{what}: both ends"), &format!("{key} {s:?}"), || {
        let mut d: std::collections::VecDeque<T> = l.iter().cloned().collect();
        let mut i = it.clone();
        s.iter().all(|&b| {
            let ok = if b { i.next() == d.pop_front() } else { i.next_back() == d.pop_back() };
            ok && i.size_hint() == (d.len(), Some(d.len())) && i.clone().collect::<Vec<_>>() == d.iter().cloned().collect::<Vec<_>>()
        }) && i.collect::<Vec<_>>() == d.into_iter().collect::<Vec<_>>()
    });
    rep.guard(&format!("{what}: collect/rev/nth/count/last"), key, || {
        let mut r = l.to_vec();
        r.reverse();
        it.clone().collect::<Vec<_>>() == l && it.clone().rev().collect::<Vec<_>>() == r && it.clone().count() == l.len() && it.clone().last() == l.last().cloned() && (0..l.len() + 2).all(|k| it.clone().nth(k) == l.get(k).cloned())
            && it.clone().collect::<std::collections::VecDeque<_>>() == l.iter().cloned().collect::<std::collections::VecDeque<_>>()
            && it.clone().skip(1).collect::<Vec<_>>() == l.iter().skip(1).cloned().collect::<Vec<_>>()
    });
}

fn vecref(rep: &mut Rep, what: &str, key: &str, v: VecRef<'_, u32>, l: &[u32], g: &mut Rng) {
    let c = v.clone();
    let n = l.len();
    rep.guard(&format!("{what}: accessors"), key, || {
        v.len() == n && v.is_empty() == (n == 0) && (0..n + 3).all(|i| v.get(i) == l.get(i)) && (0..n).all(|i| v[i] == l[i]) && (0..n).all(|i| unsafe { *v.get_unchecked(i) } == l[i])
    });
    for i in [n, n + 1] {
        rep.check(&format!("{what}: index out of bounds panics"), &format!("{key} [{i}]"), std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c[i])).is_err());
    }
    let lr: Vec<&u32> = l.iter().collect();
    drive(rep, &format!("{what}.iter()"), key, v.iter(), &lr, g);
    drive(rep, &format!("&{what}"), key, (&v).into_iter(), &lr, g);
    drive(rep, &format!("{what}.into_iter()"), key, v.clone().into_iter(), &lr, g);
    let more: Vec<u32> = (0..g.below(3)).map(|_| g.next() as u32 % 50).collect();
    rep.guard(&format!("{what}: extend"), &format!("{key} + {more:?}"), || {
        let mut w = v.clone();
        w.extend(more.iter());
        w.iter().cloned().collect::<Vec<_>>() == [l, &more[..]].concat() && w.len() == n + more.len()
    });
    let w = VecRefClone::VecRef(v);
    vrc(rep, &format!("clone of {what}"), key, w, l, g);
}

fn vrc(rep: &mut Rep, what: &str, key: &str, v: VecRefClone<'_, u32>, l: &[u32], g: &mut Rng) {
    let n = l.len();
    rep.guard(&format!("{what}: accessors"), key, || v.len() == n && v.is_empty() == (n == 0) && (0..n + 3).all(|i| v.get(i) == l.get(i)) && (0..n).all(|i| v[i] == l[i]));
    for i in [n, n + 1] {
        rep.check(&format!("{what}: index out of bounds panics"), &format!("{key} [{i}]"), std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v[i])).is_err());
    }
    let lr: Vec<&u32> = l.iter().collect();
    drive(rep, &format!("{what}.iter()"), key, v.iter(), &lr, g);
    drive(rep, &format!("&{what}"), key, (&v).into_iter(), &lr, g);
    drive(rep, &format!("{what}.into_iter()"), key, v.clone().into_iter(), l, g);
    let more: Vec<u32> = (0..g.below(3)).map(|_| g.next() as u32 % 50).collect();
    rep.guard(&format!("{what}: extend"), &format!("{key} + {more:?}"), || {
        let mut w = v.clone();
        w.extend(more.iter().cloned());
        w.iter().cloned().collect::<Vec<_>>() == [l, &more[..]].concat() && w.len() == n + more.len()
    });
}

fn arrays<const N: usize>(rep: &mut Rep, g: &mut Rng) {
    let a: [u32; N] = std::array::from_fn(|_| g.next() as u32 % 50);
    let ar: [&u32; N] = std::array::from_fn(|i| &a[i]);
    let key = format!("{a:?}");
    vecref(rep, "VecRef from &[T; N]", &key, VecRef::from(&a), &a, g);
    vecref(rep, "VecRef from [&T; N]", &key, VecRef::from(ar), &a, g);
    vrc(rep, "VecRefClone from [T; N]", &key, VecRefClone::from(a), &a, g);
    vrc(rep, "VecRefClone from &[T; N]", &key, VecRefClone::from(&a), &a, g);
    drive(rep, "ArcIntoIter from [T; N]", &key, ArcIntoIter::from(a), &a, g);
}

pub fn run(rep: &mut Rep) {
    let mut g = Rng(rep.seed ^ 0xC09);
    vecref(rep, "VecRef::default", "", VecRef::default(), &[], &mut g);
    vrc(rep, "VecRefClone::default", "", VecRefClone::default(), &[], &mut g);
    drive(rep, "ArcIntoIter::empty", "", ArcIntoIter::<u32>::empty(), &[], &mut g);
    drive(rep, "ArcIntoIter::default", "", ArcIntoIter::<u32>::default(), &[], &mut g);
    drive(rep, "IterVecRef::Empty", "", IterVecRef::<u32>::Empty, &[], &mut g);
    for k in 0..40 * rep.scale {
        arrays::<0>(rep, &mut g);
        arrays::<1>(rep, &mut g);
        arrays::<2>(rep, &mut g);
        arrays::<4>(rep, &mut g);
        let n = k % 7;
        let l: Vec<u32> = (0..n).map(|_| g.next() as u32 % 50).collect();
        let lr: Vec<&u32> = l.iter().collect();
        let arc: Arc<[u32]> = l.clone().into();
        let bx: Box<[u32]> = l.clone().into();
        let key = format!("{l:?}");
        vecref(rep, "VecRef from &[T]", &key, VecRef::from(&l[..]), &l, &mut g);
        vecref(rep, "VecRef from &Arc<[T]>", &key, VecRef::from(&arc), &l, &mut g);
        vecref(rep, "VecRef from &[&T]", &key, VecRef::from(&lr[..]), &l, &mut g);
        vecref(rep, "VecRef from Vec<&T>", &key, VecRef::from(lr.clone()), &l, &mut g);
        vecref(rep, "VecRef from &Box<[T]>", &key, VecRef::from(&bx), &l, &mut g);
        vecref(rep, "VecRef from iterator", &key, l.iter().collect(), &l, &mut g);
        if let Some(x) = l.first() {
            vecref(rep, "VecRef::Single", &key, VecRef::Single(x), &l[..1], &mut g);
            vrc(rep, "VecRefClone::Owned", &key, VecRefClone::Owned(*x), &l[..1], &mut g);
            drive(rep, "IterVecRef::Single", &key, IterVecRef::Single(x), &[x], &mut g);
        }
        vrc(rep, "VecRefClone from &[T]", &key, VecRefClone::from(&l[..]), &l, &mut g);
        vrc(rep, "VecRefClone from &[&T]", &key, VecRefClone::from(&lr[..]), &l, &mut g);
        vrc(rep, "VecRefClone from Vec<&T>", &key, VecRefClone::from(lr.clone()), &l, &mut g);
        vrc(rep, "VecRefClone from Vec<T>", &key, VecRefClone::from(l.clone()), &l, &mut g);
        vrc(rep, "VecRefClone from Box<[T]>", &key, VecRefClone::from(bx.clone()), &l, &mut g);
        vrc(rep, "VecRefClone from &Box<[T]>", &key, VecRefClone::from(&bx), &l, &mut g);
        vrc(rep, "VecRefClone from Arc<[T]>", &key, VecRefClone::from(arc.clone()), &l, &mut g);
        vrc(rep, "VecRefClone from &Arc<[T]>", &key, VecRefClone::from(&arc), &l, &mut g);
        vrc(rep, "VecRefClone from iterator", &key, l.iter().cloned().collect(), &l, &mut g);
        vrc(rep, "VecRefClone from reference iterator", &key, l.iter().collect(), &l, &mut g);
        drive(rep, "ArcIntoIter from Arc", &key, ArcIntoIter::from(arc.clone()), &l, &mut g);
        drive(rep, "ArcIntoIter from &Arc", &key, ArcIntoIter::from(&arc), &l, &mut g);
        drive(rep, "ArcIntoIter from iterator", &key, l.iter().cloned().collect::<ArcIntoIter<_>>(), &l, &mut g);
        drive(rep, "ClonableArc::into_iter", &key, ClonableArc::into_iter(arc.clone()), &l, &mut g);
        drive(rep, "IterVecRefClone::Vec", &key, IterVecRefClone::<u32>::Vec(l.iter()), &lr, &mut g);
        drive(rep, "IterVecRefClone::VecRef", &key, IterVecRefClone::VecRef(VecRef::from(&l[..]).into_iter()), &lr, &mut g);
        drive(rep, "IterVecRef::OwnedVec", &key, IterVecRef::OwnedVec(ArcIntoIter::from(Arc::<[&u32]>::from(lr.clone()))), &lr, &mut g);
    }
}
