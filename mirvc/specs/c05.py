"""C05: unification."""
from speclib import *
import c04
from c04 import fld, T_MULTI, T_ONE, entries, eid, evl

MSUB = T_MULTI(ARF)
UNI = adt(CV + 'formula::manipulation::unifier::Unifier')


def ufns(eng):
    """an arbitrary assignment of values of a free algebra to the variables, and what follows from it"""
    c = eng.__dict__.get('_c05')
    if c:
        return c
    f = F_(eng)
    V = z3.DeclareSort('Value')
    ms = eng.sort(MSUB)
    I = z3.IntSort()
    sig = z3.Function('assignment', I, V)
    val = z3.Function('value', f.rf, V)
    sz = z3.Function('size', V, I)
    qf = z3.Function('quantifier_free', f.rf, z3.BoolSort())
    sat = z3.Function('satisfied', ms, z3.BoolSort())
    ub = z3.Function('unbound', ms, I, z3.BoolSort())
    aq = z3.Function('terms_quantifier_free', ms, z3.BoolSort())
    eng._c05 = (sig, val, sz, qf, sat, ub, aq)
    v, p, k, d = z3.Const('v', f.var), z3.Const('p', ms), z3.Int('k'), z3.Int('d')
    fn, gn, l, m = z3.Const('fn', eng.sort(FUN)), z3.Const('gn', eng.sort(FUN)), z3.Const('l', f.largs), z3.Const('m', f.largs)
    q, a = z3.Const('q', f.quant), z3.Const('a', f.arf)
    es = eng.as_seq(fld(eng, Z(p, MSUB), 0), State())
    E = lambda k: es.at(k)
    st = State()
    ID = lambda k: eng.z(fld(eng, E(k), 0, st), U32, st)
    T = lambda k: f.un(eng.z(fld(eng, E(k), 1, st), ARF, st))
    rng = lambda k: z3.And(k >= 0, k < es.len)
    i = z3.Int('i')
    arg = lambda l, i: f.un(f.nth(l, i))
    eng.defs.extend([
        z3.ForAll([v], val(f.Var(v)) == sig(f.vid(v)), patterns=[val(f.Var(v))]),
        z3.ForAll([fn, l, gn, m], (val(f.Fun(fn, l)) == val(f.Fun(gn, m))) == z3.And(fn == gn, f.len(l) == f.len(m), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < f.len(l)), val(arg(l, i)) == val(arg(m, i))), patterns=[f.nth(l, i), f.nth(m, i)])),
                  patterns=[z3.MultiPattern(val(f.Fun(fn, l)), val(f.Fun(gn, m)))]),
        z3.ForAll([fn, l, i], z3.Implies(z3.And(i >= 0, i < f.len(l)), sz(val(arg(l, i))) < sz(val(f.Fun(fn, l)))), patterns=[z3.MultiPattern(val(f.Fun(fn, l)), f.nth(l, i))]),
        z3.ForAll([v], qf(f.Var(v)), patterns=[qf(f.Var(v))]),
        z3.ForAll([q, a], z3.Not(qf(f.Q(q, a))), patterns=[qf(f.Q(q, a))]),
        z3.ForAll([fn, l, i], z3.Implies(z3.And(qf(f.Fun(fn, l)), i >= 0, i < f.len(l)), qf(arg(l, i))), patterns=[z3.MultiPattern(qf(f.Fun(fn, l)), f.nth(l, i))]),
        z3.ForAll([p], sat(p) == z3.ForAll([k], z3.Implies(rng(k), sig(ID(k)) == val(T(k)))), patterns=[sat(p)]),
        z3.ForAll([p, d], ub(p, d) == z3.ForAll([k], z3.Implies(rng(k), ID(k) != d)), patterns=[ub(p, d)]),
        z3.ForAll([p], aq(p) == z3.ForAll([k], z3.Implies(rng(k), qf(T(k)))), patterns=[aq(p)]),
    ])
    return eng._c05


def un(cx, e):
    f = F_(cx.eng)
    return f.un(e) if e.sort() == f.arf else e


def walk_post(cx):
    sig, val, sz, qf, sat, ub, aq = ufns(cx.eng)
    f = F_(cx.eng)
    t, lp, rp, r = un(cx, cx.z(0)), cx.z(1), cx.z(2), un(cx, cx.zret)
    free = lambda t: z3.And(ub(lp, f.vid(f.v(t))), ub(rp, f.vid(f.v(t))))
    return [('equal under the bindings', z3.Implies(z3.And(sat(lp), sat(rp)), val(r) == val(t))),
            ('what is not a variable stays', z3.Implies(z3.Not(f.is_var(t)), r == t)),
            ('only unbound variables are left', z3.Implies(f.is_var(r), free(r))),
            ('an unbound variable stays', z3.Implies(z3.And(f.is_var(t), free(t)), r == t)),
            ('quantifier free', z3.Implies(z3.And(qf(t), aq(lp), aq(rp)), qf(r)))]


def occurs_post(cx):
    sig, val, sz, qf, sat, ub, aq = ufns(cx.eng)
    f = F_(cx.eng)
    d, t, lp, rp, r = cx.z(0), un(cx, cx.z(1)), cx.z(2), cx.z(3), cx.zret
    s = z3.And(sat(lp), sat(rp))
    return [('its value is a part of the value of the term', z3.Implies(z3.And(s, r), sz(sig(d)) <= sz(val(t)))),
            ('a proper part', z3.Implies(z3.And(s, r, z3.Not(f.is_var(t))), sz(sig(d)) < sz(val(t)))),
            ('an unbound variable is itself', z3.Implies(z3.And(f.is_var(t), ub(lp, f.vid(f.v(t))), ub(rp, f.vid(f.v(t)))), r == (f.vid(f.v(t)) == d)))]


def aux_pre(cx):
    sig, val, sz, qf, sat, ub, aq = ufns(cx.eng)
    return [('quantifier free', z3.And(qf(un(cx, cx.z(0))), qf(un(cx, cx.z(1))))), ('quantifier free bindings', z3.And(aq(cx.z(2)), aq(cx.z(3))))]


def aux_post(cx):
    sig, val, sz, qf, sat, ub, aq = ufns(cx.eng)
    l, r = val(un(cx, cx.z(0))), val(un(cx, cx.z(1)))
    old = z3.And(sat(cx.z(2)), sat(cx.z(3)))
    new = z3.And(sat(cx.znew(2)), sat(cx.znew(3)))
    return [('bindings are only added', z3.Implies(new, old)),
            ('accepted: equal under the bindings', z3.Implies(z3.And(cx.zret, new), l == r)),
            ('accepted: the bindings are necessary', z3.Implies(z3.And(cx.zret, old, l == r), new)),
            ('refused: never equal', z3.Implies(z3.And(z3.Not(cx.zret), old), l != r)),
            ('quantifier free bindings', z3.And(aq(cx.znew(2)), aq(cx.znew(3))))]


def aux_inv(L):
    eng = L.eng
    sig, val, sz, qf, sat, ub, aq = ufns(eng)
    f = F_(eng)
    its = L.iters()
    if len(its) != 1:
        raise Unsupported('which arguments does the loop compare')
    k = its[0][1].lo
    z = lambda n, st: eng.z(L.var(n, st), MSUB, st)
    S = lambda st: z3.And(sat(z('left_p', st)), sat(z('right_p', st)))
    al, ar = eng.as_seq(L.var('args_l'), L.st), eng.as_seq(L.var('args_r'), L.st)
    i = z3.Int('i!%d' % next(eng.cnt))
    same = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), val(f.un(eng.z(al.at(i), ARF, L.st))) == val(f.un(eng.z(ar.at(i), ARF, L.st)))))
    return [('bindings are only added', z3.Implies(S(L.st), S(L.entry))),
            ('equal so far', z3.Implies(S(L.st), same)),
            ('necessary so far', z3.Implies(z3.And(S(L.entry), same), S(L.st))),
            ('quantifier free bindings', z3.And(aq(z('left_p', L.st)), aq(z('right_p', L.st))))]


def sides(eng, u, st):
    return [eng.z(fld(eng, u, i, st), MSUB, st) for i in (0, 1)]


def mgu_pre(cx):
    sig, val, sz, qf, sat, ub, aq = ufns(cx.eng)
    return [('quantifier free', z3.And(qf(un(cx, cx.z(0))), qf(un(cx, cx.z(1)))))]


def mgu_post(cx):
    eng = cx.eng
    sig, val, sz, qf, sat, ub, aq = ufns(eng)
    l, r = val(un(cx, cx.z(0))), val(un(cx, cx.z(1)))
    so = cx.zret.sort()
    u = so.accessor(1, 0)(cx.zret)
    a, b = sides(eng, Z(u, UNI), cx.st)
    s = z3.And(sat(a), sat(b))
    ok = so.recognizer(1)(cx.zret)
    return [('a unifier makes the terms equal', z3.Implies(z3.And(ok, s), l == r)),
            ('a unifier is most general', z3.Implies(z3.And(ok, l == r), s)),
            ('a refusal is right', z3.Implies(z3.Not(ok), l != r))]


def does_post(cx):
    eng = cx.eng
    sig, val, sz, qf, sat, ub, aq = ufns(eng)
    a, b = sides(eng, cx.val(0), cx.st)
    return [('yes only when equal under the bindings', z3.Implies(z3.And(cx.zret, sat(a), sat(b)), val(un(cx, cx.z(1))) == val(un(cx, cx.z(2)))))]


def one_post(cx):
    eng = cx.eng
    sig, val, sz, qf, sat, ub, aq = ufns(eng)
    f = F_(eng)
    a, b = sides(eng, cx.ret, cx.st)
    return [('the variable is bound to the term', z3.And(sat(a), sat(b)) == (sig(f.vid(cx.z(0))) == val(f.un(cx.z(1)))))]


def var_post(cx):
    eng = cx.eng
    sig, val, sz, qf, sat, ub, aq = ufns(eng)
    f = F_(eng)
    so = cx.zret.sort()
    a, b = sides(eng, cx.val(0), cx.st)
    o = Z(so.accessor(1, 0)(cx.zret), T_ONE(ARF))
    i, t = eng.z(fld(eng, o, 0, cx.st), U32, cx.st), f.un(eng.z(fld(eng, o, 1, cx.st), ARF, cx.st))
    return [('the only binding', z3.Implies(so.recognizer(1)(cx.zret), z3.And(sat(a), sat(b)) == (sig(i) == val(t))))]


def contracts():
    m = dict(crate='cryptovampire', mod=r'^formula::manipulation::unifier::')
    return [
        Contract('Unifier::mgu::walk', dict(m, method='walk'), ensures=walk_post),
        Contract('Unifier::mgu::occurs', dict(m, method='occurs'), ensures=occurs_post),
        Contract('Unifier::mgu::aux', dict(m, method='aux'), requires=aux_pre, ensures=aux_post, modifies=(2, 3), loops=[(None, aux_inv)]),
        Contract('Unifier::mgu', dict(m, method='mgu'), requires=mgu_pre, ensures=mgu_post),
        Contract('Unifier::does_unify', dict(m, method='does_unify'), ensures=does_post),
        Contract('Unifier::one_variable_unifier', dict(m, method='one_variable_unifier'), ensures=one_post),
        Contract('Unifier::is_unifying_to_variable', dict(m, method='is_unifying_to_variable'), ensures=var_post),
    ]


HOOKS = [ref_hook]
DEPS = ['c04']
NOTE = ('Proof by contracts over the MIR of Unifier::mgu (and the functions inside it), does_unify, one_variable_unifier and is_unifying_to_variable: for an arbitrary assignment of values of a free algebra, a returned unifier holds '
        'exactly when the terms are equal, and a refusal means that they are not. The equations of a unifier (as_equalities) are checked on executions only (bounded). Assumes the library models listed in the evidence and termination.')
ASSUMPTIONS = ['terms are finite and freely generated (axioms on the values of terms)', 'as_equalities: bounded only']
