"""C06: sort checking accepts exactly the sorts that agree in the current realm."""
from speclib import *
import c09
from engine import StaticRef, MutRef, Engine, peel, peel_ref, is_num, num

SN = CV + 'formula::sort::'
SP = adt(SN + 'sort_proxy::SortProxy')
IERR = adt(SN + 'sort_proxy::InferenceError')
REALM = adt(CV + 'environement::traits::realm::Realm')
TB = adt(SN + 'inner::base::TermBase')
OTHER = adt(SN + 'inner::other::Other')
UE = adt(SN + 'inner::user::UserEvaluatable')
CELLT = adt('std::cell::RefCell', opt(SORT))
SIGN = CV + 'formula::function::signature::'
CHECKERR = adt(SIGN + 'error::CheckError')
RESULT = lambda t, e: adt('std::result::Result', t, e)
UNITT = Ty(('tuple', ()))
HEAP = 'sort variables'

Engine.heap_sorts = {HEAP: lambda eng: z3.ArraySort(eng.sort(CELLT), eng.sort(opt(SORT)))}


# ------------------------------------------------------------------------------------------------ sorts
def srefs(eng):
    return ref_fns(eng, SORT)


BASES = {'BOOL': 'Bool', 'CONDITION': 'Condition', 'MESSAGE': 'Message', 'BITSTRING': 'Bitstring'}
OTHERS = {'NAME': 'Name', 'STEP': 'Step'}


def denotes(eng, name):
    if name in BASES:
        return ctor(eng, INNERS, 'Base', ctor(eng, TB, BASES[name]))
    return ctor(eng, INNERS, 'Other', ctor(eng, OTHER, OTHERS[name]))


def static_sort(eng, name):
    c = z3.Const('static<%sbuiltins::%s>' % (SN, name), eng.sort(SORT))

    def mk():
        v, d = srefs(eng)
        return z3.And(v(c), d(c) == denotes(eng, name))
    eng.axiom(('static sort', name), mk)
    return c


def static_sorts():
    def mk(name):
        def ens(cx):
            v, d = srefs(cx.eng)
            return [('the sort %s is initialised' % name, v(cx.zret)), ('the sort %s denotes itself' % name, d(cx.zret) == denotes(cx.eng, name))]
        return Contract('static ' + name, static_anchor(name), ensures=ens)
    return [mk(n) for n in list(BASES) + list(OTHERS)]


def ev(eng, s, t):
    """t is the evaluated form of s"""
    _, d = srefs(eng)
    i = d(s)
    b = lambda n: i == denotes(eng, n)
    u = acc(eng, INNERS, 'UserEvaluatable', 0, i)
    return z3.Or(z3.And(b('CONDITION'), t == static_sort(eng, 'BOOL')), z3.And(b('MESSAGE'), t == static_sort(eng, 'BITSTRING')),
                 z3.And(is_ctor_(eng, INNERS, 'UserEvaluatable', i), is_ctor_(eng, UE, 'Symbolic', u), t == acc(eng, UE, 'Symbolic', 1, u)))


def agree(eng, s, t, evaluated):
    return z3.Or(s == t, z3.And(evaluated, z3.Or(ev(eng, s, t), ev(eng, t, s))))


def is_evaluated(eng, r):
    return is_ctor_(eng, REALM, 'Evaluated', r)


def realm_of(eng, st, v, t):
    """the realm a source of realms is in"""
    t = peel(t)
    if t == REALM:
        return eng.z(v, REALM, st)
    e = eng.z(v, t, st)
    return z3.Function('realm<%s>' % tname(eng, t), e.sort(), eng.sort(REALM))(e)


def evd(cx, i):
    return is_evaluated(cx.eng, realm_of(cx.eng, cx.st, cx.val(i), cx.tys[i]))


# ------------------------------------------------------------------------------------------------ sort variables
def cell_of(eng, p):
    return acc(eng, SP, 'Var', 0, p)


def known(eng, h, p):
    """what a sort or sort variable stands for, as an Option"""
    o = eng.sort(opt(SORT))
    return z3.If(is_ctor_(eng, SP, 'Var', p), z3.Select(h, cell_of(eng, p)), o.constructor(1)(acc(eng, SP, 'Static', 0, p)))


def is_some(eng, o):
    return o.sort().recognizer(1)(o)


def the(eng, o):
    return o.sort().accessor(1, 0)(o)


def hp(cx, old=False):
    return cx.eng.heap(cx.old if old else cx.st, HEAP)


def valid_static(eng, p):
    v, _ = srefs(eng)
    return z3.Implies(is_ctor_(eng, SP, 'Static', p), v(acc(eng, SP, 'Static', 0, p)))


def valid_proxy(eng, h, p):
    v, _ = srefs(eng)
    k = known(eng, h, p)
    return z3.Implies(is_some(eng, k), v(the(eng, k)))


def valid_heap(eng, h):
    v, _ = srefs(eng)
    c = z3.Const('c!%d' % next(eng.cnt), eng.sort(CELLT))
    o = z3.Select(h, c)
    return z3.ForAll([c], z3.Implies(is_some(eng, o), v(the(eng, o))), patterns=[o])


def bind(eng, h, p, s):
    o = eng.sort(opt(SORT))
    return z3.Store(h, cell_of(eng, p), o.constructor(1)(s))


def can_unify(eng, h, a, b, evaluated):
    """(do the two agree, the sort variables afterwards, the sort they agree on)"""
    ka, kb = known(eng, h, a), known(eng, h, b)
    sa, sb = is_some(eng, ka), is_some(eng, kb)
    ok = z3.Or(z3.And(sa, sb, agree(eng, the(eng, ka), the(eng, kb), evaluated)), z3.And(z3.Not(sa), sb), z3.And(sa, z3.Not(sb)))
    h2 = z3.If(z3.And(z3.Not(sa), sb), bind(eng, h, a, the(eng, kb)), z3.If(z3.And(sa, z3.Not(sb)), bind(eng, h, b, the(eng, ka)), h))
    return ok, h2, z3.If(sa, the(eng, ka), the(eng, kb))


def is_ok(r):
    return r.sort().recognizer(0)(r)


def okv(r):
    return r.sort().accessor(0, 0)(r)


# ------------------------------------------------------------------------------------------------ hooks
def hook(eng, st, c, args, atys, dty):
    m = c.method
    if c.kind == 'trait' and m == 'get_realm' and c.trait.endswith('KnowsRealm'):
        t = peel(c.self_ty)
        if t[0] in ('param', 'opaque', 'proj'):
            return [(st, Z(realm_of(eng, st, args[0], t), REALM))]
    if m in ('deref', 'clone') and args and isinstance(args[0], StaticRef):
        n = args[0].path.split('::')[-1]
        if args[0].path == SN + 'builtins::' + n and (n in BASES or n in OTHERS):
            return [(st, Z(static_sort(eng, n), SORT))]
    if c.kind == 'trait' and m in ('eq', 'ne') and c.trait.split('::')[-1] == 'PartialEq' and peel(c.self_ty) == SORT and len(args) == 2:
        eng.assumptions.add('a Reference is identified with the pointer it holds (its equality compares that pointer)')
        e = eng.z(args[0], SORT, st) == eng.z(args[1], SORT, st)
        return [(st, Z(e if m == 'eq' else z3.Not(e), BOOL_TY))]
    # RefCell
    if m in ('borrow', 'borrow_mut') and c.path is not None and 'RefCell' in c.path and atys and peel(atys[0]) == CELLT:
        eng.assumptions.add('a RefCell content is shared by all owners; no borrow of a sort variable outlives the function that takes it')
        if st.ghost.get('guards'):
            for cell, _, ident, _ in st.ghost['guards']:
                eng.oblige(st, 'no sort variable is borrowed twice', ident != eng.z(args[0], CELLT, st), kind='panic')
        e = z3.Select(eng.heap(st, HEAP), eng.z(args[0], CELLT, st))
        if m == 'borrow':
            return [(st, Z(e, opt(SORT)))]
        cell = (next(eng.frames), 'guard')
        st.mem[cell] = Z(e, opt(SORT))
        st.ghost['guards'] = st.ghost.get('guards', ()) + ((cell, HEAP, eng.z(args[0], CELLT, st), opt(SORT)),)
        return [(st, MutRef(cell, (), opt(SORT)))]
    if m in ('deref', 'deref_mut') and atys and peel(atys[0])[0] == 'adt' and peel(atys[0])[1] in ('std::cell::Ref', 'std::cell::RefMut'):
        v = args[0]
        while isinstance(v, MutRef):
            w = eng.load(st, v)
            if not isinstance(w, MutRef):
                break
            v = w
        if peel(atys[0])[1] == 'std::cell::Ref':
            return [(st, v if not isinstance(v, MutRef) else eng.load(st, v))]
        return [(st, v if m == 'deref_mut' else eng.load(st, v))]
    # texts of messages
    if m in ('to_string',) and atys and peel(atys[0]) in (SP, SORT):
        eng.assumptions.add('displaying a sort has no effect (the texts of messages are not specified)')
        return [(st, eng.fresh_val('text', dty, st))]
    if m == 'name' and atys and peel(atys[0]) == SORT:
        return [(st, eng.fresh_val('text', dty, st))]
    return None


# ------------------------------------------------------------------------------------------------ contracts: sorts and realms
def bool_is(f):
    return lambda cx: [('true exactly when the specification says so', cx.zret == f(cx))]


def eq_realm_pre(cx):
    v, _ = srefs(cx.eng)
    return [('initialised sorts', z3.And(v(cx.z(0)), v(cx.z(1))))]


def eq_realm_post(cx):
    return [('equal, or one is the evaluated form of the other in the evaluated realm', cx.zret == agree(cx.eng, cx.z(0), cx.z(1), evd(cx, 2)))]


def valid0(cx):
    v, _ = srefs(cx.eng)
    return [('initialised sort', v(cx.z(0)))]


def maybe_ev_post(cx):
    eng = cx.eng
    r, s = cx.zret, cx.z(0)
    t = z3.Const('t', eng.sort(SORT))
    return [('an evaluated form is returned', z3.Implies(is_some(eng, r), ev(eng, s, the(eng, r)))),
            ('an existing evaluated form is found', z3.ForAll([t], z3.Implies(ev(eng, s, t), z3.And(is_some(eng, r), the(eng, r) == t))))]


def evaluated_sort_post(cx):
    eng = cx.eng
    r, s = cx.zret, cx.z(0)
    t = z3.Const('t', eng.sort(SORT))
    return [('the evaluated form, or the sort itself', z3.Or(ev(eng, s, r), z3.And(r == s, z3.ForAll([t], z3.Not(ev(eng, s, t))))))]


def evaluatable_post(cx):
    eng = cx.eng
    t = z3.Const('t', eng.sort(SORT))
    _, d = srefs(eng)
    return [('exactly the sorts with an evaluated form', cx.zret == z3.Exists([t], ev(eng, cx.z(0), t)))]


def both(cx):
    e = cx.eng
    return [('evaluated exactly when both are', is_evaluated(e, cx.zret) == z3.And(is_evaluated(e, cx.z(0)), is_evaluated(e, cx.z(1))))]


def merger(cx):
    e = cx.eng
    v = cx.val(0)
    t = peel(cx.tys[0])
    r = [realm_of(e, cx.st, e.project(v, t, None, i, t[2][i], cx.st), t[2][i]) for i in (0, 1)]
    return [('evaluated exactly when both sources are', is_evaluated(e, cx.zret) == z3.And([is_evaluated(e, x) for x in r]))]


# ------------------------------------------------------------------------------------------------ contracts: sort variables
def heap_pre(*idx):
    def pre(cx):
        v, _ = srefs(cx.eng)
        out = [('the sorts known so far are initialised', valid_heap(cx.eng, hp(cx, True)))]
        for i in idx:
            t = peel(cx.tys[i])
            out.append(('argument %d is initialised' % i, v(cx.z(i)) if t == SORT else valid_proxy(cx.eng, hp(cx, True), cx.z(i))))
        return out
    return pre


def option_post(cx):
    return [('what the sort variable stands for', cx.zret == known(cx.eng, hp(cx, True), cx.z(0)))]


def known_post(cx):
    return [('whether the sort variable stands for a sort', cx.zret == is_some(cx.eng, known(cx.eng, hp(cx, True), cx.z(0))))]


def is_sort_post(cx):
    k = known(cx.eng, hp(cx, True), cx.z(0))
    return [('already stands for exactly this sort', cx.zret == z3.And(is_some(cx.eng, k), the(cx.eng, k) == cx.z(1)))]


def set_post(cx):
    eng = cx.eng
    h, p = hp(cx, True), cx.z(0)
    free = z3.Not(is_some(eng, known(eng, h, p)))
    return [('succeeds exactly on a sort variable that stands for nothing', is_ok(cx.zret) == free),
            ('only binds that variable', hp(cx) == z3.If(free, bind(eng, h, p, cx.z(1)), h))]


def expects_post(cx):
    eng = cx.eng
    h, p, s = hp(cx, True), cx.z(0), cx.z(1)
    k = known(eng, h, p)
    return [('accepted exactly when free or in agreement', is_ok(cx.zret) == z3.Or(z3.Not(is_some(eng, k)), agree(eng, the(eng, k), s, evd(cx, 2)))),
            ('a free sort variable takes the sort, a known one keeps its own', hp(cx) == z3.If(is_some(eng, k), h, bind(eng, h, p, s))),
            ]


def matches_sort_post(cx):
    return [('accepted exactly when they agree', is_ok(cx.zret) == agree(cx.eng, cx.z(0), cx.z(1), evd(cx, 2)))]


def unify_post(cx):
    eng = cx.eng
    ok, h2, s = can_unify(eng, hp(cx, True), cx.z(0), cx.z(1), evd(cx, 2))
    return [('succeeds exactly when both can stand for the same sort', is_ok(cx.zret) == ok),
            ('a free side takes the other, known sides keep theirs', hp(cx) == h2),
            ('returns the sort agreed on', z3.Implies(is_ok(cx.zret), okv(cx.zret) == s)),
            ]


# ------------------------------------------------------------------------------------------------ contracts: signatures
def sig_fns(eng, t):
    so = eng.sort(t)
    n = tname(eng, t)
    return z3.Function('out<%s>' % n, so, eng.sort(SP)), z3.Function('args<%s>' % n, so, eng.sort(lst(SP)))


def sig_of(eng, st, v, t):
    """(output, arguments) of an arbitrary signature"""
    t = peel(t)
    o, a = sig_fns(eng, t)
    e = eng.z(v, t, st)
    return o(e), eng.as_seq(Z(a(e), lst(SP)), st)


def sig_hook(eng, st, c, args, atys, dty):
    if c.kind == 'trait' and c.trait.endswith('signature::Signature') and c.method in ('out', 'args', 'args_size') and peel(c.self_ty)[0] in ('param', 'opaque'):
        o, a = sig_of(eng, st, args[0], c.self_ty)
        if c.method == 'out':
            return [(st, Z(o, SP))]
        if c.method == 'args':
            return [(st, Z(a.z, lst(SP)))]
        e = eng.z(args[0], peel(c.self_ty), st)
        return [(st, Z(z3.Function('args_size<%s>' % tname(eng, peel(c.self_ty)), e.sort(), eng.sort(dty))(e), dty))]
    if c.method == 'into_iter' and c.self_ty is not None and peel(c.self_ty)[0] == 'proj' and str(peel(c.self_ty)[3]).startswith('Args'):
        return [(st, It(eng.as_seq(args[0], st)))]
    return None


def steps(eng, cx_h, la, lb, evaluated):
    """the sort variables after checking the output and the first k arguments: HS(k)"""
    HS = z3.Function('vars_after!%d' % next(eng.cnt), z3.IntSort(), cx_h.sort())
    k = z3.Int('k')
    A, B = (lambda i: eng.z(la.at(i), SP)), (lambda i: eng.z(lb.at(i), SP))
    ok = lambda i: can_unify(eng, HS(i), A(i), B(i), evaluated)[0]
    ax = [HS(0) == cx_h, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < la.len, k < lb.len), HS(k + 1) == can_unify(eng, HS(k), A(k), B(k), evaluated)[1]), patterns=[HS(k + 1)])]
    return HS, ok, ax


def sig_spec(eng, st, h, args, tys):
    key = ('sigspec',) + tuple(eng.z(a, peel(t), st).get_id() for a, t in zip(args, tys)) + (h.get_id(),)
    c = eng.__dict__.setdefault('_sigspec', {})
    if key not in c:
        oa, la = sig_of(eng, st, args[0], tys[0])
        ob, lb = sig_of(eng, st, args[1], tys[1])
        e = is_evaluated(eng, realm_of(eng, st, args[2], tys[2]))
        ok0, h1, _ = can_unify(eng, h, oa, ob, e)
        HS, ok, ax = steps(eng, h1, la, lb, e)
        c[key] = (ok0, h1, HS, ok, ax, la, lb, h)
    return c[key]


def sig_unify_pre(cx):
    eng = cx.eng
    h = hp(cx, True)
    ok0, h1, HS, ok, ax, la, lb, _ = sig_spec(eng, cx.st, h, cx.args, cx.tys)
    v, _ = srefs(eng)
    k = z3.Int('k')
    oa, _ = sig_of(eng, cx.st, cx.args[0], cx.tys[0])
    ob, _ = sig_of(eng, cx.st, cx.args[1], cx.tys[1])
    st = lambda p: z3.Implies(is_ctor_(eng, SP, 'Static', p), v(acc(eng, SP, 'Static', 0, p)))
    out = [('the sorts known so far are initialised', valid_heap(eng, h)), ('initialised outputs', z3.And(st(oa), st(ob))), ('lists below the machine limit', z3.And(la.len < (1 << 63), lb.len < (1 << 63)))]
    for l in (la, lb):
        out.append(('initialised arguments', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < l.len), st(eng.z(l.at(k), SP))), patterns=[eng.z(l.at(k), SP)])))
    return out + [('definition of the sort variables step by step', z3.And(ax))]


def sig_unify_fold(L):
    eng = L.eng
    ok0, h1, HS, ok, ax, la, lb, h = list(eng._sigspec.values())[-1]
    j = z3.Int('j')
    a = eng.z(L.acc, None, L.st)
    return [('the sort variables are those of the first arguments', eng.heap(L.st, HEAP) == HS(z3.If(L.k <= la.len, z3.If(L.k <= lb.len, L.k, lb.len), z3.If(la.len <= lb.len, la.len, lb.len)))),
            ('initialised sorts', valid_heap(eng, eng.heap(L.st, HEAP))),
            ('no argument of the first list is left over', z3.Or(L.k <= lb.len, la.len <= lb.len)),
            ('all arguments so far agree', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.k, j < la.len, j < lb.len), ok(j)))),
            ('remembers that the second list is longer', is_some(eng, a) == z3.And(L.k > 0, L.k > la.len))]


def sig_unify_post(cx):
    eng = cx.eng
    ok0, h1, HS, ok, ax, la, lb, _ = sig_spec(eng, cx.st, hp(cx, True), cx.args, cx.tys)
    j = z3.Int('j')
    return [('succeeds exactly when outputs and all arguments agree and the counts match',
             is_ok(cx.zret) == z3.And(ok0, la.len == lb.len, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < la.len, j < lb.len), ok(j)))))]


# ------------------------------------------------------------------------------------------------ contracts: the signatures of the program
FRS = adt(SIGN + 'fixed_signature::FixedRefSignature')
SSIG = adt(SIGN + 'fixed_signature::StaticSignature')
INF = adt('utils::infinity::Infinity', Ty(('prim', 'usize')))


def field(cx, name):
    v = cx.val(0)
    t = peel(cx.tys[0])
    eng = cx.eng
    vs = eng.variants(eng.canon(t))
    i = [n for n, _ in vs[0][1]].index(name)
    return eng.project(v, t, vs[0][0], i, vs[0][1][i][1], cx.st)


def static(eng, s):
    return ctor(eng, SP, 'Static', s)


def out_is(f):
    return lambda cx: [('the declared output', cx.zret == f(cx))]


def fseq(cx, name):
    v = field(cx, name)
    return c09.view(cx.eng, cx.st, v) or cx.eng.as_seq(v, cx.st)


def args_are(f):
    def post(cx):
        eng = cx.eng
        l, r = f(cx), cx.rseq()
        if isinstance(l, list):
            return [('the declared arguments in order', z3.And([r.len == len(l)] + [eng.z(r.at(z3.IntVal(i)), SP) == x for i, x in enumerate(l)]))]
        src, g = l
        k = z3.Int('k!%d' % next(eng.cnt))
        return [('as many arguments as declared', r.len == src.len),
                ('the declared arguments in order', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < src.len), eng.z(r.at(k), r.elt) == g(eng.z(src.at(k), src.elt)))))]
    return post


def size_is(n):
    def post(cx):
        eng = cx.eng
        i = eng.sort(INF)
        num = lambda x: ctor(eng, INF, 'Num', x)
        x = num(z3.IntVal(n)) if isinstance(n, int) else num(n(cx))
        r = cx.zret
        so = r.sort()
        return [('exactly that many arguments', z3.And(so.accessor(0, 0)(r) == x, so.accessor(0, 1)(r) == x))]
    return post


def sort_realm_post(cx):
    eng = cx.eng
    _, d = srefs(eng)
    r, i = cx.zret, d(cx.z(0))
    t = z3.Const('t', eng.sort(SORT))
    has = z3.Exists([t], ev(eng, cx.z(0), t))
    return [('unknown exactly for indices, steps and names', is_some(eng, r) == z3.Or(is_ctor_(eng, INNERS, 'Base', i), is_ctor_(eng, INNERS, 'UserEvaluatable', i))),
            ('symbolic exactly for the sorts with an evaluated form', z3.Implies(is_some(eng, r), is_evaluated(eng, the(eng, r)) == z3.Not(has)))]


def base_realm_post(cx):
    eng = cx.eng
    return [('evaluated exactly for Bool and Bitstring', is_evaluated(eng, cx.zret) == z3.Or(cx.z(0) == ctor(eng, TB, 'Bool'), cx.z(0) == ctor(eng, TB, 'Bitstring')))]


def user_realm_post(cx):
    return [('evaluated exactly for evaluated sorts', is_evaluated(cx.eng, cx.zret) == is_ctor_(cx.eng, UE, 'Evaluated', cx.z(0)))]


def env_realm_post(cx):
    return [('the one it was built with', cx.zret == cx.eng.z(field(cx, 'realm'), REALM))]


def datatype_post(cx):
    eng = cx.eng
    t = z3.Const('t', eng.sort(SORT))
    _, d = srefs(eng)
    i = d(cx.z(0))
    other = is_ctor_(eng, INNERS, 'Other', i)
    return [('names, steps and, in the symbolic realm, the sorts with an evaluated form', cx.zret == z3.Or(other, z3.And(z3.Not(evd(cx, 1)), z3.Exists([t], ev(eng, cx.z(0), t)))))]


def proxy_realm_post(cx):
    eng = cx.eng
    _, d = srefs(eng)
    k = known(eng, hp(cx, True), cx.z(0))
    i = d(the(eng, k))
    t = z3.Const('t', eng.sort(SORT))
    r = cx.zret
    return [('unknown exactly for free variables, indices, steps and names', is_some(eng, r) == z3.And(is_some(eng, k), z3.Or(is_ctor_(eng, INNERS, 'Base', i), is_ctor_(eng, INNERS, 'UserEvaluatable', i)))),
            ('symbolic exactly for the sorts with an evaluated form', z3.Implies(is_some(eng, r), is_evaluated(eng, the(eng, r)) == z3.Not(z3.Exists([t], ev(eng, the(eng, k), t)))))]


def inf_args_post(cx):
    eng = cx.eng
    r = cx.rseq()
    k = z3.Int('k!%d' % next(eng.cnt))
    return [('conditions only', z3.ForAll([k], z3.Implies(k >= 0, eng.z(r.at(k), r.elt) == static(eng, static_sort(eng, 'BOOL')))))]


def size_fn(eng, t):
    rt = adt('std::ops::RangeInclusive', INF)
    return z3.Function('args_size<%s>' % tname(eng, t), eng.sort(t), eng.sort(rt))


def lazy_link(eng, t):
    """out, arguments and argument count of a Lazy are those of the signature it holds (definition)"""
    def mk():
        o, a = sig_fns(eng, t)
        out = []
        for n, fs in eng.variants(eng.canon(t)):
            x = z3.Const('x', eng.sort(fs[0][1]))
            l = ctor(eng, t, n, x)
            o2, a2 = sig_fns(eng, fs[0][1])
            for f, g in ((o, o2), (a, a2), (size_fn(eng, t), size_fn(eng, fs[0][1]))):
                out.append(z3.ForAll([x], f(l) == g(x), patterns=[f(l)]))
        return z3.And(out)
    eng.axiom(('lazy', t), mk)


def lazy_post(which):
    def post(cx):
        eng = cx.eng
        t = peel(cx.tys[0])
        lazy_link(eng, t)
        e = cx.z(0)
        if which == 'out':
            return [('the output of the signature it holds', cx.zret == sig_fns(eng, t)[0](e))]
        if which == 'args_size':
            return [('the argument count of the signature it holds', cx.zret == size_fn(eng, t)(e))]
        v = cx.ret
        r = eng.as_seq(v.fields[0] if isinstance(v, Agg) else v, cx.st)
        return [('the arguments of the signature it holds', r.z == sig_fns(eng, t)[1](e))]
    return post


def lazy_args_apply(cx):
    e = cx.z(0)
    return [(cx.st, It(cx.eng.as_seq(Z(sig_fns(cx.eng, peel(cx.tys[0]))[1](e), lst(SP)), cx.st)))]


def fun_sig(eng, f, ft, rty):
    return z3.Function('signature<%s>' % tname(eng, ft), f.sort(), eng.sort(rty))(f)


def sig_apply(cx):
    return [(cx.st, Z(fun_sig(cx.eng, cx.z(0), peel(cx.tys[0]), cx.rty), cx.rty))]


def applied_sig(cx):
    eng = cx.eng
    sig = eng.prog.find('cryptovampire', 'signature', mod=r'parsing_environement::cache::')[0].body.ret
    return fun_sig(eng, cx.z(5), peel(cx.tys[5]), sig), sig


def arity_pre(cx):
    eng = cx.eng
    h = hp(cx, True)
    s, t = applied_sig(cx)
    o, a = sig_fns(eng, t)
    l = eng.as_seq(Z(a(s), lst(SP)), cx.st)
    k = z3.Int('k')
    es = cx.z(4)
    v, d = srefs(eng)
    x = z3.Const('x', eng.sort(SORT))
    u = acc(eng, INNERS, 'UserEvaluatable', 0, d(x))
    evs = z3.ForAll([x], z3.Implies(z3.And(v(x), is_ctor_(eng, INNERS, 'UserEvaluatable', d(x)), is_ctor_(eng, UE, 'Symbolic', u)), v(acc(eng, UE, 'Symbolic', 1, u))), patterns=[d(x)])
    return [('the sorts known so far are initialised', valid_heap(eng, h)), ('initialised output', valid_proxy(eng, h, o(s))),
            ('evaluated forms are initialised', evs),
            ('initialised expected sort', z3.Implies(is_some(eng, es), valid_static(eng, the(eng, es)))),
            ('initialised arguments', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < l.len), valid_proxy(eng, h, eng.z(l.at(k), SP))), patterns=[eng.z(l.at(k), SP)]))]


def arity_fold(L):
    return [('initialised sorts', valid_heap(L.eng, L.eng.heap(L.st, HEAP)))]


def arity_post(cx):
    eng = cx.eng
    r = is_ok(cx.zret)
    l = eng.as_seq(cx.val(6), cx.st).len
    s, sig = applied_sig(cx)
    return [('accepted only with a number of arguments that the signature allows', z3.Implies(r, in_range(eng, size_fn(eng, sig)(s), l)))]


def cache_sig_post(cx):
    return []


def in_range(eng, rg, n):
    so = rg.sort()
    return z3.Function('in range', so, eng.sort(INF), z3.BoolSort())(rg, ctor(eng, INF, 'Num', n))


def parse_hook(eng, st, c, args, atys, dty):
    if c.kind == 'trait' and c.method == 'parse' and c.trait.endswith('Parsable'):
        eng.assumptions.add('the parser of a subterm leaves the sort variables initialised (its result is arbitrary)')
        h = eng.fresh('heap', eng.heap_sort(HEAP))
        eng.set_heap(st, HEAP, h)
        st.assume(valid_heap(eng, h))
        if isinstance(args[2], MutRef):
            v = eng.load(st, args[2])
            eng.store(st, args[2], eng.fresh_val('bvars', v.ty, st))
        return [(st, eng.fresh_val('parsed', dty, st))]
    if eng.verifying is not None and eng.verifying.name == 'parse_application' and c.method in ('try_eval', 'cast', 'debug_continue', 'with_location', 'f', 'as_name', 'get_function', 'target'):
        eng.assumptions.add('evaluating a term and casting a name have no effect on sorts')
        return [(st, eng.fresh_val(c.method, dty, st))]
    return None


def range_hook(eng, st, c, args, atys, dty):
    if c.method == 'contains' and c.path and 'RangeInclusive' in c.path and atys and peel(atys[1]) == INF:
        rg = eng.z(eng.load(st, args[0]) if isinstance(args[0], MutRef) else args[0], adt('std::ops::RangeInclusive', INF), st)
        x = eng.z(eng.load(st, args[1]) if isinstance(args[1], MutRef) else args[1], INF, st)
        return [(st, Z(z3.Function('in range', rg.sort(), x.sort(), z3.BoolSort())(rg, x), BOOL_TY))]
    return None


def statics_agree(eng):
    """on known sorts, sort variables play no role: checking two of them is checking the sorts"""
    a, b, h, e = z3.Const('a', eng.sort(SORT)), z3.Const('b', eng.sort(SORT)), z3.Const('h', eng.heap_sort(HEAP)), z3.Bool('e')
    ok, h2, s = can_unify(eng, h, static(eng, a), static(eng, b), e)
    return [('two known sorts', [], z3.And(ok == agree(eng, a, b, e), h2 == h))]


def variable_keeps(eng):
    """a type variable takes the first sort it is checked against and then only agrees with that sort"""
    a, b, h, e = z3.Const('a', eng.sort(SORT)), z3.Const('b', eng.sort(SORT)), z3.Const('h', eng.heap_sort(HEAP)), z3.Bool('e')
    v = ctor(eng, SP, 'Var', z3.Const('c', eng.sort(CELLT)))
    free = z3.Not(is_some(eng, known(eng, h, v)))
    ok1, h1, _ = can_unify(eng, h, v, static(eng, a), e)
    ok2, h2, _ = can_unify(eng, h1, v, static(eng, b), e)
    return [('first takes', [free], z3.And(ok1, is_some(eng, known(eng, h1, v)), the(eng, known(eng, h1, v)) == a)),
            ('then only agrees', [free], z3.And(ok2 == agree(eng, a, b, e), h2 == h1))]


def contracts():
    m = dict(crate='cryptovampire')
    S = dict(m, mod=r'formula::sort::<')
    P = dict(m, mod=r'sort_proxy::')
    KR = r'KnowsRealm for '
    return static_sorts() + [
        Contract('Sort::eq_realm', dict(m, method='eq_realm', mod=r'formula::sort'), requires=eq_realm_pre, ensures=eq_realm_post),
        Contract('Sort::maybe_evaluated_sort', dict(m, method='maybe_evaluated_sort', impl=r'^impl<.a> Sort<'), requires=valid0, ensures=maybe_ev_post),
        Contract('Sort::evaluated_sort', dict(m, method='evaluated_sort', impl=r'^impl<.a> Sort<'), requires=valid0, ensures=evaluated_sort_post),
        Contract('Sort::is_evaluatable', dict(m, method='is_evaluatable', impl=r'^impl<.a> Sort<'), requires=valid0, ensures=evaluatable_post),
        Contract('Realm & Realm', dict(m, method='bitand', impl=r'BitAnd for Realm'), ensures=both),
        Contract('RealmMerger::get_realm', dict(m, method='get_realm', impl=KR + 'RealmMerger'), ensures=merger),
        Contract('() realm', dict(m, method='get_realm', impl=KR + r'\(\)'), ensures=lambda cx: [('symbolic', z3.Not(is_evaluated(cx.eng, cx.zret)))]),
        Contract('Realm::get_realm', dict(m, method='get_realm', impl=KR + 'Realm(?!Merger)'), ensures=lambda cx: [('itself', cx.zret == cx.z(0))]),
        Contract('SortProxy::as_option', dict(m, method='as_option', impl=r'^impl<.bump> SortProxy'), ensures=option_post),
        Contract('SortProxy::is_known', dict(m, method='is_known', impl=r'^impl<.bump> SortProxy'), ensures=known_post),
        Contract('SortProxy::is_sort', dict(m, method='is_sort', impl=r'^impl<.bump> SortProxy'), ensures=is_sort_post),
        Contract('SortProxy::set', dict(m, method='set', impl=r'^impl<.bump> SortProxy'), ensures=set_post, modifies=(HEAP,)),
        Contract('SortProxy::expects', dict(m, method='expects', impl=r'^impl<.bump> SortProxy'), requires=heap_pre(0, 1), ensures=expects_post, modifies=(HEAP,)),
        Contract('SortProxy::matches', dict(m, method='matches', impl=r'^impl<.bump> SortProxy'), requires=heap_pre(0, 1), ensures=expects_post, modifies=(HEAP,)),
        Contract('SortProxy::matches_sort', dict(m, method='matches_sort', impl=r'^impl<.bump> SortProxy'), requires=heap_pre(0, 1), ensures=matches_sort_post),
        Contract('SortProxy::unify', dict(m, method='unify', impl=r'^impl<.bump> SortProxy'), requires=heap_pre(0, 1), ensures=unify_post, modifies=(HEAP,)),
        Contract('SortProxy::unify_rev', dict(m, method='unify_rev', impl=r'^impl<.bump> SortProxy'), requires=heap_pre(0, 1), ensures=unify_post, modifies=(HEAP,)),
        Contract('Sort::realm', dict(m, method='realm', impl=r'^impl<.a> Sort<'), requires=valid0, ensures=sort_realm_post),
        Contract('FixedRefSignature::fixed_out', dict(m, method='fixed_out', impl=r'for FixedRefSignature'), ensures=lambda cx: [('the declared output', cx.zret == cx.eng.z(field(cx, 'out'), SORT))]),
        Contract('FixedRefSignature::fixed_args', dict(m, method='fixed_args', impl=r'for FixedRefSignature'), ensures=args_are(lambda cx: (fseq(cx, 'args'), lambda x: x)), apply=inlined),
        Contract('StaticSignature::fixed_out', dict(m, method='fixed_out', impl=r'for StaticSignature'), ensures=lambda cx: [('the declared output', cx.zret == cx.eng.z(field(cx, 'out'), SORT))]),
        Contract('StaticSignature::fixed_args', dict(m, method='fixed_args', impl=r'for StaticSignature'), ensures=args_are(lambda cx: (cx.eng.as_seq(field(cx, 'args'), cx.st), lambda x: x)), apply=inlined),
        Contract('OnlyArgsSignature::out', dict(m, method='out', impl=r'for OnlyArgsSignature<'), ensures=out_is(lambda cx: cx.eng.z(field(cx, 'out'), SP))),
        Contract('OnlyArgsSignatureProxy::out', dict(m, method='out', impl=r'for OnlyArgsSignatureProxy'), ensures=out_is(lambda cx: cx.eng.z(field(cx, 'out'), SP))),
        Contract('EqualitySignature::out', dict(m, method='out', impl=r'for EqualitySignature', mod=r'booleans'), ensures=out_is(lambda cx: static(cx.eng, static_sort(cx.eng, 'BOOL')))),
        Contract('EqualitySignature::args', dict(m, method='args', impl=r'for EqualitySignature', mod=r'booleans'), ensures=args_are(lambda cx: [cx.eng.z(field(cx, 'sides'), SP)] * 2), apply=inlined),
        Contract('EqualitySignature::args_size', dict(m, method='args_size', impl=r'for EqualitySignature', mod=r'booleans'), ensures=size_is(2)),
        Contract('OnlyArgsSignature::args_size', dict(m, method='args_size', impl=r'for OnlyArgsSignature<'), ensures=size_is(lambda cx: fseq(cx, 'args').len)),
        Contract('OnlyArgsSignatureProxy::args_size', dict(m, method='args_size', impl=r'for OnlyArgsSignatureProxy'), ensures=size_is(lambda cx: fseq(cx, 'args').len)),
        Contract('TermBase realm', dict(m, method='get_realm', impl=KR + 'TermBase'), ensures=base_realm_post),
        Contract('UserEvaluatable realm', dict(m, method='get_realm', impl=KR + 'UserEvaluatable'), ensures=user_realm_post),
        Contract('Environement realm', dict(m, method='get_realm', impl=KR + 'Environement', mod='^environement'), ensures=env_realm_post),
        Contract('&T realm', dict(m, method='get_realm', impl=KR + '&'), ensures=lambda cx: [('the one of the source', cx.zret == realm_of(cx.eng, cx.st, cx.val(0), cx.tys[0]))]),
        Contract('KnowsRealm::is_evaluated_realm', dict(m, method='is_evaluated_realm', mod=r'KnowsRealm::is_evaluated_realm$'), ensures=lambda cx: [('when its realm is', cx.zret == evd(cx, 0))]),
        Contract('KnowsRealm::is_symbolic_realm', dict(m, method='is_symbolic_realm', mod=r'KnowsRealm::is_symbolic_realm$'), ensures=lambda cx: [('when its realm is', cx.zret == z3.Not(evd(cx, 0)))]),
        Contract('Sort::is_datatype', dict(m, method='is_datatype', impl=r'^impl<.a> Sort<'), requires=valid0, ensures=datatype_post),
        Contract('SortProxy::realm', dict(m, method='realm', impl=r'^impl<.bump> SortProxy'), requires=heap_pre(0), ensures=proxy_realm_post),
        Contract('Lazy::out', dict(m, method='out', impl=r'for Lazy<'), ensures=lazy_post('out')),
        Contract('Lazy::args', dict(m, method='args', impl=r'for Lazy<'), ensures=lazy_post('args'), apply=lazy_args_apply),
        Contract('Lazy::args_size', dict(m, method='args_size', impl=r'for Lazy<'), ensures=lazy_post('args_size')),
        Contract('InfiniteBoolSignature::args', dict(m, method='args', impl=r'for InfiniteBoolSignature'), ensures=inf_args_post, apply=inlined),
        Contract('InfiniteBoolSignature::out', dict(m, method='out', impl=r'for InfiniteBoolSignature'), ensures=out_is(lambda cx: static(cx.eng, static_sort(cx.eng, 'BOOL')))),
        Contract('SubtermSignature::out', dict(m, method='out', impl=r'for SubtermSignature'), ensures=out_is(lambda cx: static(cx.eng, static_sort(cx.eng, 'BOOL')))),
        Contract('SubtermSignature::args', dict(m, method='args', impl=r'for SubtermSignature'), ensures=args_are(lambda cx: [static(cx.eng, cx.eng.z(field(cx, 'own'), SORT)), cx.eng.z(field(cx, 'other'), SP)]), apply=inlined),
        Contract('SubtermSignature::args_size', dict(m, method='args_size', impl=r'for SubtermSignature'), ensures=size_is(2)),
        Contract('ITESignature::out', dict(m, method='out', impl=r'for ITESignature'), ensures=out_is(lambda cx: cx.eng.z(field(cx, 'sort'), SP))),
        Contract('ITESignature::args', dict(m, method='args', impl=r'for ITESignature'), ensures=args_are(lambda cx: [static(cx.eng, static_sort(cx.eng, 'BOOL'))] + [cx.eng.z(field(cx, 'sort'), SP)] * 2), apply=inlined),
        Contract('ITESignature::args_size', dict(m, method='args_size', impl=r'for ITESignature'), ensures=size_is(3)),
        Contract('fixed signature: out', dict(m, method='out', impl=r'Signature<.bump> for T'), tys={'T': FRS}, ensures=out_is(lambda cx: static(cx.eng, cx.eng.z(field(cx, 'out'), SORT))), apply=inlined),
        Contract('fixed signature: args', dict(m, method='args', impl=r'Signature<.bump> for T'), tys={'T': FRS}, ensures=args_are(lambda cx: (fseq(cx, 'args'), lambda x: static(cx.eng, x))), apply=inlined),
        Contract('fixed signature: args_size', dict(m, method='args_size', impl=r'Signature<.bump> for T'), tys={'T': FRS}, ensures=size_is(lambda cx: fseq(cx, 'args').len), apply=inlined),
        Contract('OnlyArgsSignature::args', dict(m, method='args', impl=r'for OnlyArgsSignature<'), ensures=args_are(lambda cx: (fseq(cx, 'args'), lambda x: static(cx.eng, x))), apply=inlined),
        Contract('OnlyArgsSignatureProxy::args', dict(m, method='args', impl=r'for OnlyArgsSignatureProxy'), ensures=args_are(lambda cx: (fseq(cx, 'args'), lambda x: x)), apply=inlined),
        Contract('FunctionCache::signature', dict(m, method='signature', mod=r'parsing_environement::cache::'), ensures=cache_sig_post, apply=sig_apply, trusted=True, doc='the signature of an entry of the function table depends on the entry only'),
        Contract('parse_application', dict(m, method='parse_application', mod=r'parsable_trait::parse_application$'), mk_args={6: mk_iter(Ty(('ref', False, adt(CV + 'parser::ast::term::Term', Ty(('param', 'S'))))))}, panics=True, requires=arity_pre, folds=arity_fold, modifies=(HEAP, 3), ensures=arity_post),
        Contract('Signature::unify', dict(m, method='unify', mod=r'signature::Signature::unify$'), requires=sig_unify_pre, ensures=sig_unify_post, folds=sig_unify_fold, modifies=(HEAP,)),
    ]


def inlined(cx):
    return cx.eng.run_body(cx.fn, cx.args, cx.st, cx.tenv)


LEMMAS = [('known sorts agree as sorts', statics_agree), ('a type variable keeps the first sort', variable_keeps)]
DEPS = ['c09']
HOOKS = [hook, range_hook, parse_hook, sig_hook, ref_hook]
NOTE = ('Proof by contracts: realm-aware equality, type variables (the cells they share are modelled as a heap), every signature kind and Signature::unify (a fold with an invariant, for any number of '
        'arguments), realm merging, and parse_application (an application is accepted only with a number of arguments its signature allows). '
        'The rest of the parser (which sort each construct expects) is checked on generated inputs (bounded).')
ASSUMPTIONS = ['the signature of an entry of the function table depends on the entry only (trusted)', 'argument lists are finite, except those of and/or', 'parsing a subterm leaves type variables initialised', 'two type variables that are both still unknown are reported as an error (not inferred)',
               'which sort the parser expects where: on generated inputs only (bounded)']
