"""C04: substitution."""
from speclib import *
import c09

SUB = r'impl.*Substitution<'
P = CV + 'formula::manipulation::substitution::'
T_TRANSLATE = adt(P + 'substitution::Translate')
T_ONE = lambda t: adt(P + 'variable_substitution::one_var::OneVarSubst', t)
T_MULTI = lambda t: adt(P + 'variable_substitution::owned_var::MultipleVarSubst', t)


def unrf(eng, e):
    f = F_(eng)
    return f.un(e) if e.sort() == f.arf else e


def sub_fns(eng, t):
    """spec functions of a substitution type: sget, sapply, smap"""
    key = ('sub', tname(eng, t))
    c = eng.__dict__.setdefault('_subfns', {})
    if key in c:
        return c[key]
    f = F_(eng)
    so = eng.sort(t)
    n = tname(eng, t)
    sget = z3.Function('sget<%s>' % n, so, f.var, f.arf)
    sapp = z3.Function('sapply<%s>' % n, so, f.rf, f.arf)
    smap = z3.Function('smap<%s>' % n, so, f.largs, f.largs)
    c[key] = (sget, sapp, smap)
    s, r, l, i = z3.Const('s', so), z3.Const('r', f.rf), z3.Const('l', f.largs), z3.Int('i')
    v, fn, q, a = z3.Const('v', f.var), z3.Const('fn', eng.sort(FUN)), z3.Const('q', f.quant), z3.Const('a', f.arf)
    ax = [
        z3.ForAll([s, v], sapp(s, f.Var(v)) == sget(s, v), patterns=[sapp(s, f.Var(v))]),
        z3.ForAll([s, fn, l], sapp(s, f.Fun(fn, l)) == f.arc(f.Fun(fn, smap(s, l))), patterns=[sapp(s, f.Fun(fn, l))]),
        z3.ForAll([s, q, a], sapp(s, f.Q(q, a)) == f.arc(f.Q(q, sapp(s, f.un(a)))), patterns=[sapp(s, f.Q(q, a))]),
        z3.ForAll([s, l], f.len(smap(s, l)) == f.len(l), patterns=[smap(s, l)]),
        z3.ForAll([s, l, i], z3.Implies(z3.And(i >= 0, i < f.len(l)), f.nth(smap(s, l), i) == sapp(s, f.un(f.nth(l, i)))), patterns=[f.nth(smap(s, l), i)]),
    ]
    eng.defs.extend(ax)
    return c[key]


def hook(eng, st, c, args, atys, dty):
    """<S as Substitution>::get for an arbitrary substitution S"""
    if c.kind == 'trait' and c.trait.endswith('::Substitution') and c.method == 'get' and peel(c.self_ty)[0] in ('param', 'opaque'):
        t = peel(c.self_ty)
        sget, _, _ = sub_fns(eng, t)
        return [(st, Z(sget(eng.z(args[0], t, st), eng.z(args[1], VAR, st)), ARF))]
    return None


def apply_def(cx):
    t = peel(cx.tys[0])
    _, sapp, _ = sub_fns(cx.eng, t)
    bind_get(cx.eng, t)
    return Z(sapp(cx.z(0), unrf(cx.eng, cx.z(1))), ARF)


def bind_get(eng, t):
    """connect sget of a concrete substitution type with the contract of its `get`"""
    d = GETS.get(peel(t)[1]) if peel(t)[0] == 'adt' else None
    if d is None:
        return
    def mk():
        sget, _, _ = sub_fns(eng, t)
        f = F_(eng)
        s, v = z3.Const('s', eng.sort(t)), z3.Const('v', f.var)
        return z3.ForAll([s, v], sget(s, v) == d(eng, t, s, v), patterns=[sget(s, v)])
    eng.axiom(('sgetdef', tname(eng, t)), mk)


def var_f(eng, v):
    f = F_(eng)
    return f.arc(f.Var(v))


def get_translate(eng, t, s, v):
    f = F_(eng)
    n = eng.sort(t).accessor(0, 0)(s)
    i = f.vid(v) + n
    return var_f(eng, f.mkvar(z3.If(i <= UVAR_MAX, i, i - (UVAR_MAX + 1)), f.vsort(v)))


def get_one(eng, t, s, v):
    f = F_(eng)
    so = eng.sort(t)
    return z3.If(f.vid(v) == so.accessor(0, 0)(s), so.accessor(0, 1)(s), var_f(eng, v))


def get_chain(eng, t, s, v):
    a, b = peel(t)[2]
    so = eng.sort(t)
    bind_get(eng, a)
    bind_get(eng, b)
    ga, _, _ = sub_fns(eng, a)
    _, ab, _ = sub_fns(eng, b)
    return ab(so.accessor(0, 1)(s), F_(eng).un(ga(so.accessor(0, 0)(s), v)))


GETS = {
    P + 'substitution::Translate': get_translate,
    P + 'variable_substitution::one_var::OneVarSubst': get_one,
    P + 'substitution::Chain': get_chain,
}


def get_def(cx):
    t = peel(cx.tys[0])
    return Z(GETS[t[1]](cx.eng, t, cx.z(0), cx.z(1)), ARF)


def first_match(cx, seq, idof, valof, v, default):
    """r is the value of the first entry whose id is v's, or default"""
    eng = cx.eng
    i, j = z3.Int('i!%d' % next(eng.cnt)), z3.Int('j!%d' % next(eng.cnt))
    hit = lambda k: z3.And(k >= 0, k < seq.len, idof(seq.at(k)) == v)
    r = cx.zret
    return z3.Or(
        z3.And(z3.Not(z3.Exists([i], hit(i))), r == default),
        z3.Exists([i], z3.And(hit(i), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), idof(seq.at(j)) != v)), r == valof(seq.at(i)))))


def fld(eng, v, i, st=None):
    vs = eng.variants(eng.canon(v.ty))
    return eng.project(v, v.ty, vs[0][0], i, vs[0][1][i][1], st)


def multi_get(cx):
    eng = cx.eng
    f = F_(eng)
    l = eng.as_seq(fld(eng, cx.val(0), 0), cx.st)
    v = cx.z(1)
    return [('first entry for the variable wins, other variables unchanged',
             first_match(cx, l, lambda e: fld(eng, e, 0).e, lambda e: fld(eng, e, 1).e, f.vid(v), var_f(eng, v)))]


T_FROZEN = lambda t: adt(P + 'variable_substitution::ref_substitution::FrozenMultipleVarSubst', t)


def entries(cx, v, i=0):
    """the list a field stands for (plain or shared)"""
    return c09.view(cx.eng, cx.st, fld(cx.eng, v, i, cx.st))


def elt(cx, l):
    """type of the terms of a list of OneVarSubst"""
    return peel(l.elt)[2][0]


def eid(cx):
    return lambda e: cx.eng.z(fld(cx.eng, e, 0, cx.st), U32, cx.st)


def evl(cx, t):
    return lambda e: cx.eng.z(fld(cx.eng, e, 1, cx.st), t, cx.st)


def frozen_get(t, result):
    """the value of the first entry of the variable, the variable itself if there is none"""
    def post(cx):
        eng, f = cx.eng, F_(cx.eng)
        l, v = entries(cx, cx.val(0)), cx.z(1)
        val = evl(cx, t)
        as_f = (lambda x: var_f(eng, x)) if (t == VAR and result == ARF) else (lambda x: x)
        return [('first entry for the variable wins, other variables unchanged',
                 first_match(cx, l, eid(cx), lambda e: as_f(val(e)), f.vid(v), as_f(v) if t == VAR else var_f(eng, v)))]
    return post


def frozen_pair_get(cx):
    eng, f = cx.eng, F_(cx.eng)
    a, b, v = entries(cx, cx.val(0), 0), entries(cx, cx.val(0), 1), cx.z(1)
    k = z3.Int('k!%d' % next(eng.cnt))
    j = z3.Int('j!%d' % next(eng.cnt))
    A = lambda i: eng.z(a.at(i), U32, cx.st)
    hit = lambda i: z3.And(i >= 0, i < a.len, A(i) == f.vid(v))
    return [('first entry for the variable wins, other variables unchanged', z3.Or(
        z3.And(z3.Not(z3.Exists([k], hit(k))), cx.zret == var_f(eng, v)),
        z3.Exists([k], z3.And(hit(k), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), A(j) != f.vid(v))), cx.zret == eng.z(b.at(k), ARF, cx.st)))))]


def same_lengths(cx):
    a, b = entries(cx, cx.val(0), 0), entries(cx, cx.val(0), 1)
    return [('as many terms as variables', a.len == b.len), fits(a)]


def fits(l):
    return ('lists fit in memory', l.len < (1 << 63))


def maybe_get(cx):
    eng = cx.eng
    l = entries(cx, cx.val(0))
    T = elt(cx, l)
    k, j = z3.Int('k!%d' % next(eng.cnt)), z3.Int('j!%d' % next(eng.cnt))
    I, V = eid(cx), evl(cx, T)
    hit = lambda i: z3.And(i >= 0, i < l.len, I(l.at(i)) == cx.z(1))
    r = cx.zret
    so = r.sort()
    return [('the first entry of the variable, if any', z3.Or(
        z3.And(z3.Not(z3.Exists([k], hit(k))), so.recognizer(0)(r)),
        z3.Exists([k], z3.And(hit(k), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), I(l.at(j)) != cx.z(1))), so.recognizer(1)(r), so.accessor(1, 0)(r) == V(l.at(k))))))]


def same_entries(src, convert=None):
    def post(cx):
        eng = cx.eng
        s, r = src(cx), entries(cx, cx.ret)
        i = z3.Int('i!%d' % next(eng.cnt))
        T = elt(cx, r)
        return [('as many entries', r.len == s.len),
                ('the same entries in the same order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len), z3.And(
                    eid(cx)(r.at(i)) == eid(cx)(s.at(i)), evl(cx, T)(r.at(i)) == evl(cx, T)(s.at(i))))))]
    return post


def add_post(cx):
    eng = cx.eng
    a, b = entries(cx, cx.val(0)), entries(cx, cx.new(0))
    i = z3.Int('i!%d' % next(eng.cnt))
    I, V = eid(cx), evl(cx, ARF)
    return [('one more entry', b.len == a.len + 1),
            ('the previous entries first', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.len), z3.And(I(b.at(i)) == I(a.at(i)), V(b.at(i)) == V(a.at(i)))))),
            ('then the new one', z3.And(I(b.at(a.len)) == cx.z(1), V(b.at(a.len)) == cx.z(2)))]


def unzip_post(cx):
    eng = cx.eng
    l, a, b = entries(cx, cx.val(0)), entries(cx, cx.ret, 0), entries(cx, cx.ret, 1)
    i = z3.Int('i!%d' % next(eng.cnt))
    T = b.elt
    return [('as many variables and terms as entries', z3.And(a.len == l.len, b.len == l.len)),
            ('entry by entry', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l.len), z3.And(eng.z(a.at(i), U32, cx.st) == eid(cx)(l.at(i)), eng.z(b.at(i), T, cx.st) == evl(cx, T)(l.at(i))))))]


def zip_post(cx):
    eng = cx.eng
    a, b, l = entries(cx, cx.val(0), 0), entries(cx, cx.val(0), 1), entries(cx, cx.ret)
    i = z3.Int('i!%d' % next(eng.cnt))
    T = b.elt
    return [('as many entries as variables', l.len == a.len),
            ('entry by entry', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l.len), z3.And(eng.z(a.at(i), U32, cx.st) == eid(cx)(l.at(i)), eng.z(b.at(i), T, cx.st) == evl(cx, T)(l.at(i))))))]


def chain_post(cx):
    so = cx.zret.sort()
    return [('first this substitution, then the other', z3.And(so.accessor(0, 0)(cx.zret) == cx.z(0), so.accessor(0, 1)(cx.zret) == cx.z(1)))]


def translate_post(cx):
    so = cx.zret.sort()
    t = so.accessor(0, 1)(cx.zret)
    return [('this substitution, then the translation', z3.And(so.accessor(0, 0)(cx.zret) == cx.z(0), t.sort().accessor(0, 0)(t) == cx.z(1)))]


def contracts():
    m = dict(crate='cryptovampire')
    F = dict(m, mod=r'ref_substitution')
    O = dict(m, mod=r'owned_var')
    A = 'cryptovampire::formula::formula::arc::ARichFormula'
    R = 'cryptovampire::formula::formula::formula::RichFormula'
    return [
        Contract('Substitution::apply', dict(m, method='apply', mod=r'Substitution::apply$'), define=apply_def, tys=[{'impl AsRef': '&' + A}, {'impl AsRef': R}, {'impl AsRef': '&' + R}]),
        Contract('Chain::get', dict(m, method='get', impl=r'Substitution<.bump> for Chain'), define=get_def),
        Contract('Translate::get', dict(m, method='get', impl=r'Substitution<.bump> for Translate'), define=get_def),
        Contract('OneVarSubstF::get', dict(m, method='get', impl=r'Substitution<.bump> for OneVarSubst'), define=get_def),
        Contract('MultipleVarSubst::get', dict(m, method='get', impl=r'Substitution<.bump> for MultipleVarSubst'), ensures=multi_get),
        Contract('RichFormula::apply_substitution2', dict(m, method='apply_substitution2', impl=r'^impl<.bump> RichFormula'), tys={'impl Substitution': Ty(('param', 'S'))},
                 define=lambda cx: Z(sub_fns(cx.eng, cx.tys[1])[1](cx.z(1), cx.z(0)), ARF)),
        Contract('FrozenMultipleVarSubst::get_var', dict(F, method='get_var'), ensures=frozen_get(VAR, VAR)),
        Contract('FrozenMultipleVarSubst<Variable>::get', dict(F, method='get', impl=r'FrozenMultipleVarSubst<.a, Variable'), ensures=frozen_get(VAR, ARF)),
        Contract('FrozenOVSubstF::get', dict(F, method='get', impl=r'FrozenOVSubstF'), ensures=frozen_get(ARF, ARF)),
        Contract('FrozenSubstF::get', dict(F, method='get', impl=r'FrozenSubstF'), requires=same_lengths, ensures=frozen_pair_get),
        Contract('FrozenMultipleVarSubst::from_iter', dict(F, method='from_iter'), tys={'T': VECT(adt(P + 'variable_substitution::one_var::OneVarSubst', Ty(('param', 'A'))))}, requires=lambda cx: [fits(cx.seq(0))], ensures=same_entries(lambda cx: cx.seq(0))),
        Contract('FrozenSubst: From<FrozenMultipleVarSubst>', dict(F, method='from', impl=r'for FrozenSubst<'), requires=lambda cx: [fits(entries(cx, cx.val(0)))], ensures=unzip_post),
        Contract('FrozenMultipleVarSubst: From<FrozenSubst>', dict(F, method='from', impl=r'for FrozenMultipleVarSubst<'), requires=same_lengths, ensures=zip_post),
        Contract('MultipleVarSubst::maybe_get', dict(O, method='maybe_get'), ensures=maybe_get),
        Contract('MultipleVarSubst::add', dict(O, method='add'), modifies=(0,), ensures=add_post),
        Contract('MultipleVarSubst::from_iter', dict(O, method='from_iter'), tys={'U': adt(P + 'variable_substitution::one_var::OneVarSubst', Ty(('param', 'T'))), 'A': VECT(adt(P + 'variable_substitution::one_var::OneVarSubst', Ty(('param', 'T'))))}, ensures=same_entries(lambda cx: cx.seq(0))),
        Contract('Substitution::chain', dict(m, method='chain', mod=r'Substitution::chain$'), ensures=chain_post),
        Contract('Substitution::translate', dict(m, method='translate', mod=r'Substitution::translate$'), ensures=translate_post),
        Contract('RichFormula::translate_vars', dict(m, method='translate_vars', impl=r'^impl<.bump> RichFormula'), define=trv),
    ]


def trv(cx):
    t = T_TRANSLATE
    bind_get(cx.eng, t)
    _, sapp, _ = sub_fns(cx.eng, t)
    so = cx.eng.sort(t)
    return Z(F_(cx.eng).un(sapp(so.constructor(0)(cx.z(1)), cx.z(0))), RF)


HOOKS = [hook, ref_hook]

NOTE = 'Proof by contracts over the MIR of the functions named in evidence; assumes the library models listed there, Arc/reference erasure and termination.'
DEPS = ['c09']
