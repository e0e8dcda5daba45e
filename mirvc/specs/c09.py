"""C09: shared list containers and iterators are faithful to the sequence they hold."""
from speclib import *
import models

U = 'utils::'
VR = U + 'vecref::VecRef'
VRC = U + 'vecref::VecRefClone'
IVR = U + 'vecref::IterVecRef'
IIVRC = U + 'vecref::IntoIterVecRefClone'
IVRC = U + 'vecref::IterVecRefClone'
AII = U + 'arc_into_iter::ArcIntoIter'
KINDS = (VR, VRC, IVR, IIVRC, IVRC, AII)
TP = Ty(('param', 'T'))
RTP = Ty(('ref', False, TP))


def ite_seq(eng, cs, elt):
    """[(cond, SeqV)] -> SeqV by cases (last one is the default)"""
    if len(cs) == 1:
        return cs[0][1]
    zl = lambda s: s.len if z3.is_expr(s.len) else z3.IntVal(s.len)
    n = zl(cs[-1][1])
    for c, s in reversed(cs[:-1]):
        n = z3.If(c, zl(s), n)
    so = eng.sort(elt)

    def at(i):
        r = None
        for c, s in reversed(cs):
            if s.conc is not None and not s.conc:
                continue
            v = eng.z(s.at(i), elt)
            r = v if r is None else z3.If(c, v, r)
        return Z(r if r is not None else z3.Const('undef<%s>' % so, so), elt)
    return SeqV(n, at, elt)


def view(eng, st, v, ty=None):
    """the sequence a container or iterator stands for"""
    if isinstance(v, MutRef):
        return view(eng, st, eng.load(st, v), ty)
    if isinstance(v, It):
        return models.rest(eng, st, v)
    if isinstance(v, SeqV):
        return v
    ty = peel(v.ty if getattr(v, 'ty', None) is not None else ty)
    if ty[0] in ('slice', 'array') or (ty[0] == 'adt' and eng.canon(ty)[0] == 'list'):
        return eng.as_seq(v, st)
    if ty[0] != 'adt' or ty[1] not in KINDS:
        return None
    vs = eng.variants(eng.canon(ty))
    t = ty[2][0]
    def case(i):
        name, fs = vs[i]
        g = lambda j: eng.project(v, ty, name, j, fs[j][1], st)
        if name == 'Empty':
            return eng.conc_seq([], t)
        if name in ('Single', 'Owned', 'One'):
            return eng.conc_seq([g(0)], t)
        if name == 'Iter':
            names = [f for f, _ in fs]
            d, lo, hi = (g(names.index(k)) for k in ('data', 'index', 'end'))
            s = eng.as_seq(d, st)
            lo, hi = eng.z(lo), eng.z(hi)
            return SeqV(hi - lo, lambda k: s.at(k + lo), t)
        f = g(0)
        return view(eng, st, f, fs[0][1])
    if isinstance(v, Agg):
        return case(v.variant)
    return ite_seq(eng, [(v.e.sort().recognizer(i)(v.e) if len(vs) > 1 else z3.BoolVal(True), case(i)) for i in range(len(vs))], t)


def inv(eng, st, v, ty=None):
    """shared-array iterators stay inside their array"""
    if isinstance(v, MutRef):
        return inv(eng, st, eng.load(st, v), ty)
    if isinstance(v, (It, SeqV)):
        return z3.BoolVal(True)
    ty = peel(v.ty if getattr(v, 'ty', None) is not None else ty)
    if ty[0] != 'adt' or ty[1] not in KINDS:
        return z3.BoolVal(True)
    vs = eng.variants(eng.canon(ty))
    cs = []
    for i, (name, fs) in enumerate(vs):
        if isinstance(v, Agg) and v.variant != i:
            continue
        g = lambda j: eng.project(v, ty, name, j, fs[j][1], st)
        if name == 'Iter':
            names = [f for f, _ in fs]
            d, lo, hi = (g(names.index(k)) for k in ('data', 'index', 'end'))
            s = eng.as_seq(d, st)
            e = z3.And(0 <= eng.z(lo), eng.z(lo) <= eng.z(hi), eng.z(hi) <= s.len, s.len < (1 << 63))
        elif fs and name not in ('Single', 'Owned', 'One'):
            e = inv(eng, st, g(0), fs[0][1])
            if not isinstance(v, It) and ty[1] in (VR, VRC):
                s = view(eng, st, g(0), fs[0][1])
                e = z3.And(e, s.len < (1 << 63)) if s is not None else e
        else:
            continue
        cs.append(e if isinstance(v, Agg) else z3.Implies(v.e.sort().recognizer(i)(v.e), e))
    return z3.And(cs) if cs else z3.BoolVal(True)


def views(eng, st, v, ty):
    t = peel(ty)
    if t[0] == 'adt' and t[1] in KINDS:
        return view(eng, st, v, ty)
    return None


V = lambda cx, i, old=True: view(cx.eng, cx.old if old else cx.st, cx.val(i, old), cx.tys[i])
RV = lambda cx: view(cx.eng, cx.st, cx.ret, cx.rty)
pre = lambda *ix: lambda cx: [('iterator within its array', inv(cx.eng, cx.st, cx.val(i), cx.tys[i])) for i in ix]


def opt_is(cx, cond, val):
    """result is Some(val) exactly when cond"""
    eng = cx.eng
    r = cx.zret
    so = r.sort()
    return [('an element is returned exactly when there is one', so.recognizer(1)(r) == cond), ('it is the right element', z3.Implies(cond, so.accessor(1, 0)(r) == val))]


def e_len(cx):
    return [('length of the sequence', cx.zret == V(cx, 0).len)]


def e_is_empty(cx):
    return [('empty iff no element', cx.zret == (V(cx, 0).len == 0))]


def e_get(cx):
    s = V(cx, 0)
    return opt_is(cx, cx.z(1) < s.len, cx.eng.z(s.at(cx.z(1)), TP))


def e_index(cx):
    return [('the indexed element', cx.zret == cx.eng.z(V(cx, 0).at(cx.z(1)), TP))]


def oob(cx):
    return cx.z(1) >= V(cx, 0).len


def e_same(cx):
    """same sequence, iterator invariant"""
    return [('same elements in the same order', seq_eq(cx.eng, cx.st, RV(cx), V(cx, 0))), ('within its array', inv(cx.eng, cx.st, cx.ret, cx.rty))]


def a_same(cx):
    return [(cx.st, It(V(cx, 0)))]


def e_next(back):
    def ens(cx):
        eng = cx.eng
        s = V(cx, 0)
        n = V(cx, 0, False)
        k = z3.IntVal(0) if not back else s.len - 1
        rest = SeqV(s.len - 1, (lambda i: s.at(i)) if back else (lambda i: s.at(i + 1)), s.elt)
        some_ = s.len > 0
        return opt_is(cx, some_, eng.z(s.at(k), TP)) + [
            ('the remaining elements follow in order', z3.Implies(some_, seq_eq(eng, cx.st, n, rest))),
            ('an exhausted iterator stays exhausted', z3.Implies(z3.Not(some_), n.len == 0)),
            ('within its array', inv(eng, cx.st, cx.new(0), cx.tys[0]))]
    return ens


def a_next(back):
    """call site: the receiver becomes the rest of its sequence"""
    def ap(cx):
        eng, st, r = cx.eng, cx.st, cx.args[0]
        eng.oblige(st, 'precondition: iterator within its array', inv(eng, st, r, cx.tys[0]))
        s = V(cx, 0)
        out = []
        t = cx.rty
        for s2, b in models.bools(eng, st, s.len > 0):
            if not b:
                eng.store(s2, r, It(eng.conc_seq([], s.elt)))
                out.append((s2, Agg(t, 0, [])))
            else:
                v = s.at(s.len - 1) if back else s.at(z3.IntVal(0))
                eng.store(s2, r, It(s, 0, s.len - 1) if back else It(s, 1, s.len))
                out.append((s2, Agg(t, 1, [v])))
        return out
    return ap


def e_size(cx):
    n = V(cx, 0).len
    eng = cx.eng
    r = cx.zret
    so = r.sort()
    o = so.accessor(0, 1)(r)
    return [('lower bound is exact', so.accessor(0, 0)(r) == n), ('upper bound is exact', z3.And(o.sort().recognizer(1)(o), o.sort().accessor(1, 0)(o) == n))]


def e_collect(cx):
    """the collection is built from exactly the remaining elements"""
    eng = cx.eng
    f = z3.Function('collect<B>', eng.sort(lst(TP)), eng.sort(Ty(('param', 'B'))))
    s = V(cx, 0)
    l = eng.seq_to_z(SeqV(s.len, s.at, TP, conc=s.conc), cx.st)
    return [('collects exactly the remaining elements', cx.zret == f(l))]


def e_concat(cx):
    a, b = V(cx, 0), V(cx, 1)
    eng = cx.eng
    return [('old elements then the new ones', seq_eq(eng, cx.st, V(cx, 0, False), SeqV(a.len + b.len, lambda i: Z(z3.If(i < a.len, eng.z(a.at(i), TP), eng.z(b.at(i - a.len), TP)), TP), TP)))]


def contracts():
    m = dict(crate='utils')
    out = []

    def add(name, method, impl, **k):
        out.append(Contract(name, dict(m, method=method, impl=impl), **k))
    for ty, g in (('VecRef', r"^impl<'a, T> VecRef<'a, T>"), ('VecRefClone', r"^impl<'a, T: Clone> VecRefClone<'a, T>")):
        add(ty + '::len', 'len', g, ensures=e_len)
        add(ty + '::is_empty', 'is_empty', g, ensures=e_is_empty)
        add(ty + '::get', 'get', g, ensures=e_get)
        add(ty + '::iter', 'iter', g, requires=pre(0), ensures=e_same, apply=a_same)
        add(ty + ' Index', 'index', r'Index<usize> for %s<' % ty, ensures=e_index, panics=oob)
        add(ty + ' IntoIterator', 'into_iter', r"IntoIterator for %s<" % ty, requires=pre(0), ensures=e_same, apply=a_same)
        add('&' + ty + ' IntoIterator', 'into_iter', r"IntoIterator for &'b %s<" % ty, requires=pre(0), ensures=e_same, apply=a_same)
        add(ty + ' Default', 'default', r'Default for %s<' % ty, ensures=lambda cx: [('empty', RV(cx).len == 0)])
        add(ty + ' Extend', 'extend', r'Extend<.*for %s<' % ty, requires=pre(0), ensures=e_concat, tys={'T': VECT(RTP if ty == 'VecRef' else TP), 'U': TP})
    add('VecRef::get_unchecked', 'get_unchecked', r"^impl<'a, T> VecRef<'a, T>", requires=lambda cx: [('in bounds', cx.z(1) < V(cx, 0).len)], ensures=e_index)
    for ty in ('IterVecRef', 'IntoIterVecRefClone', 'IterVecRefClone', 'ArcIntoIter'):
        it = r' Iterator for %s<' % ty
        add(ty + '::next', 'next', it, requires=pre(0), ensures=e_next(False), apply=a_next(False))
        add(ty + '::next_back', 'next_back', r'DoubleEndedIterator for %s<' % ty, requires=pre(0), ensures=e_next(True), apply=a_next(True))
        add(ty + '::size_hint', 'size_hint', it, requires=pre(0), ensures=e_size)
        if ty != 'IterVecRefClone':
            add(ty + '::collect', 'collect', it, requires=pre(0), ensures=e_collect)
    for ty, srcs in (('VecRef', ["&'a [T]", "&'a Arc<[T]>", "&'a [T; N]", "&'a [&'a T]", "Vec<&'a T>", "[&'a T; N]", "&'a Box<[T]>"]),
                     ('VecRefClone', ["&'a [T]", "&'a [T; N]", "[T; N]", "&'a [&'a T]", "Vec<&'a T>", "Vec<T>", "Box<[T]>", "&'a Box<[T]>", "Arc<[T]>", "&'b Arc<[T]>"]),
                     ('ArcIntoIter', ["Arc<[T]>", "&'a Arc<[T]>", "[T; N]"])):
        for s in srcs:
            req = lambda cx: [('lists fit in memory', V(cx, 0).len < (1 << 63))]
            add('From<%s> for %s' % (s, ty), 'from', r'From<%s> for %s<' % (re.escape(s), ty), requires=req, ensures=e_same, apply=a_same if ty == 'ArcIntoIter' else None)
    fit = lambda cx: [('lists fit in memory', V(cx, 0).len < (1 << 63))]
    add('FromIterator<&> for VecRef', 'from_iter', r"FromIterator<&'a I> for VecRef<", ensures=e_same, requires=fit, tys={'T': VECT(RTP), 'I': TP})
    add('FromIterator<&> for VecRefClone', 'from_iter', r"FromIterator<&'a I> for VecRefClone<", ensures=e_same, requires=fit, tys={'T': VECT(RTP), 'I': TP})
    add('FromIterator for VecRefClone', 'from_iter', r"FromIterator<I> for VecRefClone<", ensures=e_same, requires=fit, tys={'T': VECT(TP), 'I': TP})
    add('FromIterator for ArcIntoIter', 'from_iter', r"FromIterator<T> for ArcIntoIter<", ensures=e_same, tys={'I': VECT(TP)}, requires=fit)
    add('ArcIntoIter Default', 'default', r'Default for ArcIntoIter<', ensures=lambda cx: [('empty', RV(cx).len == 0)])
    return out


HOOKS = []
VIEWS = [views]
NOTE = 'Proof: every accessor, iterator step, conversion and extension of the list containers is verified against the sequence the container stands for, for all representations and lengths.'
ASSUMPTIONS = ['lists hold fewer than 2^63 elements', 'cloning an element yields an equal element']
