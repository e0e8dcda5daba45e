"""C12: parsing gives names the meaning of lexical scoping."""
from speclib import *
import c04, c07, c09
from engine import MutRef, Agg, Z, peel, peel_ref, reachable, Unsupported

PT = CV + 'parser::parser::parsable_trait::'
VP = adt(PT + 'VarProxy')
AST = CV + 'parser::ast::'
PS = Ty(('param', 'S'))
BINDING = Ty(('tuple', (PS, VP)))


# ------------------------------------------------------------------------------------------------ free and bound variables
def isvar(eng, i, q):
    """the identifier i is one of the variables of the quantifier q"""
    f = F_(eng)
    k = z3.Int('k')
    l = z3.If(q.sort().recognizer(0)(q), q.sort().accessor(0, 0)(q), q.sort().accessor(1, 0)(q))
    return z3.Exists([k], z3.And(k >= 0, k < f.vlen(l), f.vid(f.vnth(l, k)) == i))


def fvbv(eng):
    """fv(i, formula): the variable i occurs free; bv(i, formula): some quantifier of the formula binds i"""
    c = eng.__dict__.get('_fvbv')
    if c is not None:
        return c
    f = F_(eng)
    fv = c07.fvv_fn(eng)
    bv = z3.Function('bv', z3.IntSort(), f.rf, z3.BoolSort())
    qv = z3.Function('quantified', z3.IntSort(), f.quant, z3.BoolSort())
    eng._fvbv = (fv, bv)
    d, v, fn, q, a, l, i = z3.Int('d'), z3.Const('v', f.var), z3.Const('fn', eng.sort(FUN)), z3.Const('q', f.quant), z3.Const('a', f.arf), z3.Const('l', f.largs), z3.Int('i')
    inl = lambda p: z3.Exists([i], z3.And(i >= 0, i < f.len(l), p(d, f.un(f.nth(l, i)))))
    eng.defs.extend([
        z3.ForAll([d, q], qv(d, q) == isvar(eng, d, q), patterns=[qv(d, q)]),
        z3.ForAll([d, v], z3.Not(bv(d, f.Var(v))), patterns=[bv(d, f.Var(v))]),
        z3.ForAll([d, fn, l], bv(d, f.Fun(fn, l)) == inl(bv), patterns=[bv(d, f.Fun(fn, l))]),
        z3.ForAll([d, q, a], bv(d, f.Q(q, a)) == z3.Or(bv(d, f.un(a)), qv(d, q)), patterns=[bv(d, f.Q(q, a))]),
    ])
    return eng._fvbv


# ------------------------------------------------------------------------------------------------ names in scope
def bind(eng, l, i, st=None):
    """-> (name, variable identifier, sort proxy) of an entry of the scope"""
    e = eng.z(l.at(i), l.elt or BINDING, st)
    so = e.sort()
    v = so.accessor(0, 1)(e)
    return so.accessor(0, 0)(e), v.sort().accessor(0, 0)(v), v.sort().accessor(0, 1)(v)


def every(eng, l, p, st=None):
    k = z3.Int('k!%d' % next(eng.cnt))
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < l.len), p(*bind(eng, l, k, st))))


def some_(eng, l, p, st=None):
    k = z3.Int('k!%d' % next(eng.cnt))
    return z3.Exists([k], z3.And(k >= 0, k < l.len, p(*bind(eng, l, k, st))))


def below(eng, l, r, st=None):
    return every(eng, l, lambda n, i, s: i < r, st)


def bounded(i):
    def pre(cx):
        return [('fewer than 2^32 variables', below(cx.eng, cx.seq(i), UVAR_MAX))]
    return pre


def next_post(cx):
    return [('larger than every variable in scope', below(cx.eng, cx.seq(0), cx.zret)), ('not too large', z3.And(cx.zret >= 0, z3.Implies(cx.zret > 0, some_(cx.eng, cx.seq(0), lambda n, i, s: i == cx.zret - 1))))]


def is_ok(r):
    return r.sort().recognizer(0)(r)


def ok_val(r):
    return r.sort().accessor(0, 0)(r)


def same(eng, a, b, n, st=None):
    """the first n entries agree"""
    k = z3.Int('k!%d' % next(eng.cnt))
    x, y = bind(eng, a, k, st), bind(eng, b, k, st)
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And([p == q for p, q in zip(x, y)])))


def binding_post(cx):
    eng, f = cx.eng, F_(cx.eng)
    a, b = cx.eng.as_seq(cx.val(2), cx.st), cx.eng.as_seq(cx.new(2), cx.st)
    r = is_ok(cx.zret)
    v = ok_val(cx.zret)
    n, i, s = bind(eng, b, a.len, cx.st)
    return [('one more name in scope', z3.Implies(r, b.len == a.len + 1)),
            ('the names in scope stay', z3.Implies(r, same(eng, a, b, a.len, cx.st))),
            ('a new variable', z3.Implies(r, below(eng, a, f.vid(v), cx.st))),
            ('the name denotes the variable', z3.Implies(r, z3.And(i == f.vid(v), n == name_of(cx))))]


def fz(eng, e, t, *names):
    """field path of a structure term -> (term, type)"""
    t = peel(t)
    for n in names:
        vs = eng.variants(eng.canon(t))
        fs = vs[0][1]
        i = [x for x, _ in fs].index(n)
        e, t = eng.sort(t).accessor(0, i)(e), peel(fs[i][1])
    return e, t


def name_of(cx):
    """the name a binding declares"""
    return fz(cx.eng, cx.z(0), peel(cx.tys[0]), 'variable', '0', 'content')[0]


def few(cx):
    r = cx.zret
    return [('fewer than 2^32 variables are in scope at once', z3.Implies(is_ok(r), below(cx.eng, cx.eng.as_seq(cx.new(2), cx.st), UVAR_MAX)))]


# ------------------------------------------------------------------------------------------------ the contract of every parser of terms
def in_scope(eng, l, d, st):
    return some_(eng, l, lambda n, i, s: i == d, st)


def scoped(eng, l, e, st):
    """the free variables of e are in scope, its bound variables are not"""
    f = F_(eng)
    fv, bv = fvbv(eng)
    d, k = z3.Int('d!%d' % next(eng.cnt)), z3.Int('k!%d' % next(eng.cnt))
    e = f.un(e) if e.sort() == f.arf else e
    i = bind(eng, l, k, st)[1]
    return [('free variables are in scope', forall(d, z3.Implies(fv(d, e), in_scope(eng, l, d, st)), fv(d, e))),
            ('bound variables are new', forall(d, z3.Implies(bv(d, e), below(eng, l, d, st)), bv(d, e)))]


def forall(d, g, p):
    # an element of a list under construction is no pattern: it is only ever in a goal
    return z3.ForAll([d], g) if has_ite(p) else z3.ForAll([d], g, patterns=[p])


def has_ite(e):
    return z3.is_app_of(e, z3.Z3_OP_ITE) or any(has_ite(x) for x in e.children())


def scope(cx, j, new=False):
    return cx.eng.as_seq(cx.new(j) if new else cx.val(j), cx.st)


def parse_post(j=2):
    def post(cx):
        eng = cx.eng
        a, b = scope(cx, j), scope(cx, j, True)
        r = is_ok(cx.zret)
        return [('the names in scope are as before', z3.Implies(r, z3.And(a.len == b.len, same(eng, a, b, a.len, cx.st))))] + \
               [(n, z3.Implies(r, g)) for n, g in scoped(eng, a, ok_val(cx.zret), cx.st)]
    return post


def parse_hook(eng, st, c, args, atys, dty):
    """the parser of a subterm: its contract is the one proved for every implementation"""
    if c.kind == 'trait' and c.method == 'parse' and c.trait.endswith('Parsable') and dty is not None and peel(dty)[0] == 'adt' and peel(peel(dty)[2][0]) == ARF:
        if not isinstance(args[2], MutRef):
            return None
        old = eng.as_seq(eng.load(st, args[2]), st)
        eng.oblige(st, 'precondition of the parser of a subterm: fewer than 2^32 variables', below(eng, old, UVAR_MAX, st))
        out = []
        r = eng.fresh_val('parsed', dty, st)
        e = eng.z(r, dty, st)
        l = []
        eng.fork(st, is_ok(e), True, l)
        eng.fork(st, z3.Not(is_ok(e)), False, l)
        for s, ok in l:
            if ok:
                for _, g in scoped(eng, old, ok_val(e), s):
                    s.assume(g)
            else:
                v = eng.load(s, args[2])
                eng.store(s, args[2], eng.fresh_val('bvars', VECT(old.elt or BINDING), s))
        return [(s, r) for s, _ in l]
    return None


def fold(L):
    """invariant of parsing a list of bindings or arguments"""
    eng = L.eng
    cells = [c for c in reachable(L.st, L.f) if isinstance(c, tuple) and is_scope(eng, L.entry, c)]
    if len(cells) != 1:
        raise Unsupported('which scope does the fold use')
    a, b = eng.as_seq(L.entry.mem[cells[0]], L.entry), eng.as_seq(L.st.mem[cells[0]], L.st)
    f = F_(eng)
    if L.kind == 'try_fold':
        return [('the names in scope are as before', z3.And(a.len == b.len, same(eng, a, b, a.len, L.st)))] + [('so far: ' + n, g) for n, g in scoped(eng, a, eng.z(L.acc, ARF, L.st), L.st)]
    acc = eng.as_seq(L.acc, L.st)
    if eng.sort(acc.elt) == f.var:
        j, i = z3.Int('j!%d' % next(eng.cnt)), z3.Int('i!%d' % next(eng.cnt))
        idof = lambda k: f.vid(eng.z(acc.at(k), VAR, L.st))
        n, i_, s = bind(eng, b, j, L.st)
        return [('as many new names as bindings so far', z3.And(b.len == a.len + L.k, acc.len == L.k)),
                ('fewer than 2^32 variables', below(eng, b, UVAR_MAX, L.st)),
                ('the names in scope stay', same(eng, a, b, a.len, L.st)),
                ('each new name denotes its variable', z3.ForAll([j], z3.Implies(z3.And(j >= a.len, j < a.len + L.k), i_ == idof(j - a.len)))),
                ('the variables are new', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), below(eng, a, idof(j), L.st))))]
    j = z3.Int('j!%d' % next(eng.cnt))
    e = eng.z(acc.at(j), ARF, L.st)
    sc = scoped(eng, a, e, L.st)
    return [('the names in scope are as before', z3.And(a.len == b.len, same(eng, a, b, a.len, L.st)))] + \
           [('arguments so far: ' + n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k), g))) for n, g in sc]


def is_scope(eng, st, c):
    try:
        l = eng.as_seq(st.mem[c], st)
    except Exception:
        return False
    return l.elt is not None and eng.sort(l.elt) == eng.sort(BINDING)


# ------------------------------------------------------------------------------------------------ term algebra quantifiers
def listed(eng, l, d, st):
    if isinstance(l, list):
        return z3.Or([z3.And(c, listed(eng, m, d, st)) for c, m in l])
    f = F_(eng)
    k = z3.Int('k!%d' % next(eng.cnt))
    return z3.Exists([k], z3.And(k >= 0, k < l.len, f.vid(eng.z(l.at(k), VAR, st)) == d))


def closing(cx, fl, contents, bl):
    """fl: the variables of bl excepted, those that are free in the contents"""
    eng = cx.eng
    f = F_(eng)
    fv, _ = fvbv(eng)
    d = z3.Int('d!%d' % next(eng.cnt))
    free = lambda d: z3.And(z3.Or([fv(d, f.un(c)) for c in contents]), z3.Not(listed(eng, bl, d, cx.st)))
    k = z3.Int('k!%d' % next(eng.cnt))
    x = f.vid(eng.z(fl.at(k), VAR, cx.st))
    return [('only free variables are captured', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < fl.len), free(x))))] + [
            ('every free variable is captured', z3.ForAll([d], z3.Implies(z3.And(fv(d, f.un(c)), z3.Not(listed(eng, bl, d, cx.st))), listed(eng, fl, d, cx.st)), patterns=[fv(d, f.un(c))])) for c in contents]


def quantifier_vars(eng, q):
    """the variables of a quantifier, by variant"""
    return [(q.sort().recognizer(i)(q), eng.as_seq(Z(q.sort().accessor(i, 0)(q), lst(VAR)), None)) for i in (0, 1)]


def taq(eng, fun):
    return c07.fun_quant(eng, fun)


def newq_post(cx):
    eng = cx.eng
    is_q, q = taq(eng, cx.zret)
    fl = eng.as_seq(Z(*c07.fz(eng, q, c07.TAQ, 'free_variables')), cx.st)
    return [('a quantifier', is_q)] + closing(cx, fl, [cx.z(2)], quantifier_vars(eng, cx.z(1)))


def newf_post(cx):
    eng = cx.eng
    so = cx.zret.sort()
    fl = eng.as_seq(Z(so.accessor(0, 1)(cx.zret), lst(VAR)), cx.st)
    return closing(cx, fl, [cx.z(2), cx.z(3), cx.z(4)], cx.seq(1))


def eval_post(cx):
    f = F_(cx.eng)
    d = z3.Int('d!%d' % next(cx.eng.cnt))
    e, r = cx.z(1), cx.zret
    e, v = (f.un(e) if e.sort() == f.arf else e), f.un(ok_val(r))
    return [('the same %s variables' % n, z3.Implies(is_ok(r), z3.ForAll([d], p(d, v) == p(d, e), patterns=[p(d, v)]))) for n, p in zip(('free', 'bound'), fvbv(cx.eng))]


def cast_post(cx):
    f = F_(cx.eng)
    d = z3.Int('d!%d' % next(cx.eng.cnt))
    e, r = cx.z(2), cx.zret
    e, v = (f.un(e) if e.sort() == f.arf else e), f.un(r)
    return [('the same %s variables' % n, z3.ForAll([d], p(d, v) == p(d, e), patterns=[p(d, v)])) for n, p in zip(('free', 'bound'), fvbv(cx.eng))]


def app_post(cx):
    return parse_post()(cx)


SC = CV + 'parser::parser::parsing_environement::cache::step::'


def sc_pre(cx):
    eng = cx.eng
    a, n = [eng.as_seq(Z(*fz(eng, cx.z(0), peel(cx.tys[0]), x)), cx.st) for x in ('args', 'args_name')]
    return [('a name for each parameter', a.len == n.len), ('fewer than 2^32 variables', cx.z(1) + a.len + 1 < UVAR_MAX)]


def sc_vars_post(cx):
    eng, f = cx.eng, F_(cx.eng)
    a, n = [eng.as_seq(Z(*fz(eng, cx.z(0), peel(cx.tys[0]), x)), cx.st) for x in ('args', 'args_name')]
    import models
    r = models.rest(eng, cx.st, cx.ret, None)
    k = z3.Int('k!%d' % next(eng.cnt))
    x = eng.z(r.at(k), r.elt, cx.st)
    nm, v = x.sort().accessor(0, 0)(x), x.sort().accessor(0, 1)(x)
    return [('the parameters and the input', r.len == a.len + 1),
            ('numbered in order', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= a.len), f.vid(v) == cx.z(1) + k))),
            ('with the names of the parameters', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a.len), nm == eng.z(n.at(k), n.elt, cx.st))))]


def sc_subst_post(cx):
    eng = cx.eng
    a, l = eng.as_seq(Z(*fz(eng, cx.z(0), peel(cx.tys[0]), 'args')), cx.st), cx.seq(2)
    vs, fs = c09.view(eng, cx.st, c04.fld(eng, cx.ret, 0, cx.st)), c09.view(eng, cx.st, c04.fld(eng, cx.ret, 1, cx.st))
    k, d = z3.Int('k!%d' % next(eng.cnt)), z3.Int('d!%d' % next(eng.cnt))
    T = lambda s, k: eng.z(s.at(k), ARF, cx.st)
    f = F_(eng)
    some = lambda p: z3.Exists([k], z3.And(k >= 0, k < l.len, p(d, f.un(T(l, k)))))
    return [('as many arguments as parameters', l.len == a.len),
            ('the parameters and the input', z3.And(vs.len == a.len + 1, fs.len == a.len + 1)),
            ('numbered in order', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= a.len), eng.z(vs.at(k), U32, cx.st) == cx.z(1) + k))),
            ('each parameter is its argument', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a.len), T(fs, k) == T(l, k))))] + [
            ('the input has the %s variables of the arguments' % n, z3.ForAll([d], z3.Implies(p(d, f.un(T(fs, a.len))), some(p)))) for n, p in zip(('free', 'bound'), fvbv(eng))]


def contracts():
    m = dict(crate='cryptovampire')
    FF = dict(m, impl=r'^impl<.bump> Function<')
    T = dict(m, mod=r'parsable_trait::')
    return [
        Contract('next_variable_id', dict(T, method='next_variable_id'), requires=bounded(0), ensures=next_post, assumes=lambda cx: [('fewer than 2^31 variables are in scope at once', cx.zret < 1 << 31)]),
        Contract('VariableBinding::parse', dict(T, method='parse', impl=r'for ast::VariableBinding'), requires=bounded(2), ensures=binding_post, modifies=(2,), assumes=few),
        Contract('LetIn::parse', dict(T, method='parse', impl=r'for ast::LetIn<'), requires=bounded(2), ensures=parse_post(), modifies=(2,), panics=True, folds=fold),
        Contract('IfThenElse::parse', dict(T, method='parse', impl=r'for ast::IfThenElse<'), requires=bounded(2), ensures=parse_post(), modifies=(2,), panics=True, folds=fold),
        Contract('Function::new_quantifier_from_quantifier', dict(FF, method='new_quantifier_from_quantifier'), panics=True, ensures=newq_post),
        Contract('Function::new_find_such_that', dict(FF, method='new_find_such_that'), tys={'impl IntoIterator': VECT(VAR)}, panics=True, ensures=newf_post),
        Contract('Evaluator::try_eval', dict(m, method='try_eval', impl=r'Evaluator<'), tys={'impl Into<ARichFormula<.bump>>': ARF, 'impl Into<ARichFormula<\'bump>>': ARF}, panics=True, ensures=eval_post),
        Contract('NameCasterCollection::cast', dict(m, method='cast', impl=r'NameCasterCollection<'), tys={'F': ARF}, panics=True, ensures=cast_post),
        Contract('parse_application', dict(T, method='parse_application'), requires=bounded(3), ensures=parse_post(3), modifies=(3,), panics=True, folds=fold, mk_args={6: mk_iter(Ty(('ref', False, adt(CV + 'parser::ast::term::Term', Ty(('param', 'S'))))))}),
        Contract('Application::parse', dict(T, method='parse', impl=r'for ast::Application<'), requires=bounded(2), ensures=app_post, modifies=(2,), panics=True),
        Contract('Term::parse', dict(T, method='parse', impl=r'for ast::Term<'), requires=bounded(2), ensures=parse_post(), modifies=(2,), panics=True),
        Contract('Infix::parse', dict(T, method='parse', impl=r'for ast::Infix<'), requires=bounded(2), ensures=parse_post(), modifies=(2,), panics=True, folds=fold),
        Contract('StepCache::args_vars_with_input_from', dict(m, method='args_vars_with_input_from', impl=r'StepCache<'), requires=sc_pre, ensures=sc_vars_post, apply=c07.inlined),
        Contract('StepCache::substitution_from', dict(m, method='substitution_from', impl=r'StepCache<'), requires=sc_pre, panics=True, ensures=sc_subst_post),
        Contract('FindSuchThat::parse', dict(T, method='parse', impl=r'for ast::FindSuchThat<'), requires=bounded(2), ensures=parse_post(), modifies=(2,), panics=True, folds=fold),
        Contract('Quantifier::parse', dict(T, method='parse', impl=r'for ast::Quantifier<'), requires=bounded(2), ensures=parse_post(), modifies=(2,), panics=True, folds=fold),
    ]


# ------------------------------------------------------------------------------------------------ substituting without capture
def no_capture(eng, e, img, bimg, ibound):
    """the condition under which replacing variables of e means what it says. img(i, j): j is free in what replaces i; bimg(i, b): b is bound in it"""
    _, bv = fvbv(eng)
    b, i, j = [z3.Int('%s!%d' % (x, next(eng.cnt))) for x in 'bij']
    return [('nothing is captured', z3.ForAll([b, i], z3.Implies(z3.And(bv(b, e), i != b), z3.Not(img(i, b))))),
            ('bound variables are not replaced', z3.ForAll([b, j], z3.Implies(bv(b, e), z3.And(z3.Implies(img(b, j), j == b), z3.Not(bimg(b, j))))))]


def substituted(eng, e, r, img, bimg):
    """what the result of a substitution without capture has as free and bound variables"""
    fv, bv = fvbv(eng)
    i, j = [z3.Int('%s!%d' % (x, next(eng.cnt))) for x in 'ij']
    return [('free variables', z3.ForAll([j], z3.Implies(fv(j, r), z3.Exists([i], z3.And(fv(i, e), img(i, j)))), patterns=[fv(j, r)])),
            ('bound variables', z3.ForAll([j], z3.Implies(bv(j, r), z3.Or(bv(j, e), z3.Exists([i], z3.And(fv(i, e), bimg(i, j))))), patterns=[bv(j, r)]))]


def subst_lemma(eng):
    """by induction on the formula, for any substitution (C04 proves that `apply` is sapply): the step for each kind of formula"""
    f = F_(eng)
    fv, bv = fvbv(eng)
    t = Ty(('param', 'S'))
    sget, sapp, smap = c04.sub_fns(eng, t)
    s = z3.Const('s', eng.sort(t))
    img, bimg = z3.Function('img', z3.IntSort(), z3.IntSort(), z3.BoolSort()), z3.Function('bimg', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    v0, j, k = z3.Const('v0', f.var), z3.Int('j'), z3.Int('k')
    maps = [z3.ForAll([v0, j], z3.Implies(fv(j, f.un(sget(s, v0))), img(f.vid(v0), j)), patterns=[fv(j, f.un(sget(s, v0)))]),
            z3.ForAll([v0, j], z3.Implies(bv(j, f.un(sget(s, v0))), bimg(f.vid(v0), j)), patterns=[bv(j, f.un(sget(s, v0)))])]

    def holds(e):
        h = z3.And([g for _, g in no_capture(eng, e, img, bimg, None)])
        return z3.Implies(h, z3.And([g for _, g in substituted(eng, e, f.un(sapp(s, e)), img, bimg)]))
    v, fn, l, q, a = z3.Const('v', f.var), z3.Const('fn', eng.sort(FUN)), z3.Const('l', f.largs), z3.Const('q', f.quant), z3.Const('a', f.arf)

    def case(e, ih):
        hyp = maps + ih + [g for _, g in no_capture(eng, e, img, bimg, None)]
        return [(n, hyp, g) for n, g in substituted(eng, e, f.un(sapp(s, e)), img, bimg)]
    out = []
    for n, e, ih in [('a variable', f.Var(v), []),
                     ('an application', f.Fun(fn, l), [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < f.len(l)), holds(f.un(f.nth(l, k)))), patterns=[f.nth(l, k)])]),
                     ('a quantifier', f.Q(q, a), [holds(f.un(a))])]:
        out += [('%s, %s' % (n, m), h, g) for m, h, g in case(e, ih)]
    return out


def one_img(eng, sv, st):
    """OneVarSubst { id, f }"""
    f = F_(eng)
    fv, bv = fvbv(eng)
    so = sv.sort()
    x, t = so.accessor(0, 0)(sv), f.un(so.accessor(0, 1)(sv))
    return (lambda i, j: z3.If(i == x, fv(j, t), i == j)), (lambda i, j: z3.And(i == x, bv(j, t)))


def list_img(eng, vs, fs, st):
    """a list of variables and one of formulas"""
    f = F_(eng)
    fv, bv = fvbv(eng)
    V = lambda k: eng.z(vs.at(k), U32, st)
    T = lambda k: f.un(eng.z(fs.at(k), ARF, st))
    k = z3.Int('k!%d' % next(eng.cnt))
    hit = lambda i, p: z3.Exists([k], z3.And(k >= 0, k < vs.len, V(k) == i, p(T(k))))
    return (lambda i, j: z3.Or(hit(i, lambda t: fv(j, t)), z3.And(i == j, z3.Not(hit(i, lambda t: z3.BoolVal(True)))))), (lambda i, j: hit(i, lambda t: bv(j, t)))


def subst_hook(eng, st, c, args, atys, dty):
    if c.method == 'apply_substitution2':
        f = F_(eng)
        e = eng.z(eng.load(st, args[0]) if isinstance(args[0], MutRef) else args[0], peel(atys[0]), st)
        e = f.un(e) if e.sort() == f.arf else e
        t = peel(args[1].ty if getattr(args[1], 'ty', None) is not None else atys[1])
        if t[1].endswith('::OneVarSubst'):
            img, bimg = one_img(eng, eng.z(args[1], t, st), st)
        elif t[1].endswith('::FrozenSubst'):
            img, bimg = list_img(eng, c09.view(eng, st, c04.fld(eng, args[1], 0, st)), c09.view(eng, st, c04.fld(eng, args[1], 1, st)), st)
        else:
            return None
        return replaced(eng, st, e, img, bimg)
    if c.method == 'apply_substitution':
        eng.assumptions.add('apply_substitution replaces each variable by the formula at its first position in the list')
        f = F_(eng)
        e = eng.z(args[0], peel(atys[0]), st)
        import models
        vs, fs = models.rest(eng, st, args[1], atys[1]), models.rest(eng, st, args[2], atys[2])
        eng.oblige(st, 'substitution: as many formulas as variables', vs.len == fs.len)
        return replaced(eng, st, e, *list_img(eng, vs, fs, st))
    return None


def replaced(eng, st, e, img, bimg):
    for n, g in no_capture(eng, e, img, bimg, None):
        eng.oblige(st, 'substitution: ' + n, g)
    r = eng.fresh('substituted', F_(eng).arf)
    for _, g in substituted(eng, e, F_(eng).un(r), img, bimg):
        st.assume(g)
    return [(st, Z(r, ARF))]


def hook(eng, st, c, args, atys, dty):
    if c.method in ('provide', 'help_provide', 'err_with', 'msg_with_location') and dty is not None and peel(dty)[0] == 'adt' and peel(dty)[1].startswith(CV + 'error::'):
        eng.assumptions.add('building an error and its location has no other effect')
        return [(st, eng.fresh_val(c.method, dty, st))]
    if c.method == 'name' and atys and atys[0] is not None and peel(atys[0]) == SORT and dty is not None:
        return [(st, eng.fresh_val('name of a sort', dty, st))]
    if c.method == 'from_static' and c.kind == 'trait':
        return [(st, eng.fresh_val('static name', dty, st))]
    if c.method == 'unknown_symbol' and dty is not None:
        t = peel(atys[0])
        e = eng.z(args[0], t, st)
        r = eng.fresh_val('known', dty, st)
        z = eng.z(r, dty, st)
        st.assume(is_ok(z) == e.sort().recognizer(1)(e))
        st.assume(z3.Implies(is_ok(z), ok_val(z) == e.sort().accessor(1, 0)(e)))
        q = peel(peel(dty)[2][0])
        if q[1].endswith('::StepCache') or q[1].endswith('::Macro'):
            eng.assumptions.add('a step or a macro has a name for each parameter, and fewer than 2^30 parameters')
            a, n = [eng.as_seq(Z(*fz(eng, ok_val(z), q, x)), st) for x in ('args', 'args_name')]
            st.assume(z3.Implies(is_ok(z), z3.And(a.len == n.len, a.len < 1 << 30)))
        return [(st, r)]
    if c.method == 'get_realm' and c.kind == 'trait':
        e = eng.z(eng.load(st, args[0]) if isinstance(args[0], MutRef) else args[0], peel(atys[0] or c.self_ty), st)
        return [(st, Z(z3.Function('realm<%s>' % e.sort(), e.sort(), eng.sort(REALM))(e), REALM))]
    if eng.verifying is not None and eng.verifying.name == 'parse_application' and (c.method in ('signature', 'args_size', 'realm', 'out', 'get_function', 'as_name', 'target') or c.method == 'contains' and len(atys) == 2 and 'RangeInclusive' in str(atys[0])) and dty is not None:
        eng.assumptions.add('reading the signature of a function does not change the scope')
        return [(st, eng.fresh_val(c.method, dty, st))]
    if eng.verifying is not None and eng.verifying.name == 'parse_application' and c.method == 'args' and len(args) == 1:
        return [(st, eng.as_seq(eng.fresh_val('sorts', VECT(adt(CV + 'formula::sort::sort_proxy::SortProxy')), st), st))]
    if c.method in OPAQUE and dty is not None:
        eng.assumptions.add('checking sorts does not change the scope')
        return [(st, eng.fresh_val(c.method, dty, st))]
    return None


OPAQUE = ('get_sort', 'expects', 'matches', 'unify', 'unify_rev', 'is_sort', 'as_option', 'maybe_evaluated_sort')
REALM = adt(CV + 'environement::traits::realm::Realm')
LEMMAS = [('substitution without capture', subst_lemma)]
HOOKS = [subst_hook, parse_hook, hook, ref_hook]
DEPS = ['c04', 'c07']

LEVEL = 'proof'
NOTE = ('Proof by contracts, for every parser of terms but one (let-in, if-then-else, find-such-that, quantifiers, applications and variables, infix chains, terms): parsing leaves the names in scope as they were, '
        'the free variables of the result are in scope, and every variable it binds is new; a binding adds exactly its name, for a variable larger than all in scope; a quantifier or find-such-that of the term algebra takes exactly '
        'the free variables of its parts as arguments; substituting the variables of a step takes its arguments in order. '
        'The use of a macro (msg!, cond!, m!), which of two equal names wins, and the meaning of infix chains are compared with an independent reading of generated texts (bounded).')
ASSUMPTIONS = ['fewer than 2^31 variables are in scope at once', 'parsing of a subterm meets the contract proved for every parser of terms (that of macros: bounded only)',
               'macro expansion and the choice between equal names: on generated inputs only (bounded)', 'checking sorts and reading signatures do not change the scope']
