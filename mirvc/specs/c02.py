"""C02: lemmas are proved in order, each before it is assumed."""
from speclib import *
import models
from engine import FnItem, peel, peel_ref, mutrefs, State, is_num, num
from contract import val_eq, seq_eq
import c01

PBL = adt(CV + 'problem::problem::Problem')
PI = adt(CV + 'problem::problem::pbl_iterator::PblIterator')
ST = adt(CV + 'problem::problem::pbl_iterator::state::State')


def fnames(eng, t):
    return [f for f, _ in eng.variants(eng.canon(t))[0][1]]


def fld(eng, t, e, name):
    """field of a struct value"""
    return acc(eng, t, eng.variants(eng.canon(t))[0][0], fnames(eng, t).index(name), e)


def fseq(eng, e, name):
    """list field of a problem"""
    return eng.as_seq(Z(fld(eng, PBL, e, name), lst(ARF)), State())


def fq(eng, e):
    return fld(eng, PBL, e, 'query')


def in_state(eng, it, name):
    return is_ctor_(eng, ST, name, fld(eng, PI, it, 'state'))


def rest_same(eng, a, b, *but):
    """all fields of the problem but the named ones are the same"""
    return [('%s is kept' % n, fld(eng, PBL, a, n) == fld(eng, PBL, b, n)) for n in fnames(eng, PBL) if n not in but]


def is_app(eng, new, old, e, what):
    """new is old with e added at the end"""
    i = z3.Int('i!app')
    return ('%s, then the new one, in order' % what, z3.And(new.len == old.len + 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < old.len), zat(eng, new, i) == zat(eng, old, i))), zat(eng, new, old.len) == e))


def zat(eng, s, i):
    return eng.z(s.at(i if not isinstance(i, int) else z3.IntVal(i)), ARF, State())


def is_same(eng, a, b, what):
    return (what + ' are kept', fld(eng, PBL, a, what) == fld(eng, PBL, b, what))


def new_post(cx):
    eng = cx.eng
    r, p, w = cx.zret, cx.z(0), cx.z(1)
    q = fld(eng, PI, r, 'pbl')
    out = [('%s (all modes)' % n, g) for n, g in rest_same(eng, q, p, 'lemmas', 'query')]
    n, g = is_app(eng, fseq(eng, q, 'lemmas'), fseq(eng, p, 'lemmas'), fq(eng, p), 'lemmas')
    out += [('with lemmas the queue is the lemmas and then the query', z3.Implies(w, z3.And(in_state(eng, r, 'WithLemma'), g))),
            ('without lemmas the problem is the original', z3.Implies(z3.Not(w), z3.And(in_state(eng, r, 'NoLemma'), q == p)))]
    out.append(('with lemmas nothing but truth is assumed first', z3.Implies(w, fq(eng, q) == true_arf(eng))))
    return out


def next_post(cx):
    """one step of the sub-problem sequence"""
    eng = cx.eng
    a, b = cx.z(0), cx.znew(0)
    p, q = fld(eng, PI, a, 'pbl'), fld(eng, PI, b, 'pbl')
    r = cx.ret
    if isinstance(r, Agg):
        rsome = z3.BoolVal(r.variant == 1)
        got = eng.z(eng.load(cx.st, r.fields[0]) if isinstance(r.fields[0], MutRef) else r.fields[0], PBL, cx.st) if r.variant == 1 else None
    else:
        raise Unsupported('result of next')
    return step(eng, a, b, rsome) + ([('the problem given is the current one', got == q)] if got is not None else [])


def step(eng, a, b, some_):
    p, q = fld(eng, PI, a, 'pbl'), fld(eng, PI, b, 'pbl')
    S = lambda it, n: in_state(eng, it, n)
    lem, lem2 = fseq(eng, p, 'lemmas'), fseq(eng, q, 'lemmas')
    i = z3.Int('i!step')
    more = z3.And(S(a, 'WithLemma'), lem.len > 0)
    pop = z3.And(lem2.len == lem.len - 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lem2.len), zat(eng, lem2, i) == zat(eng, lem, i + 1))))
    _, app = is_app(eng, fseq(eng, q, 'assertions'), fseq(eng, p, 'assertions'), fq(eng, p), 'assertions')
    out = [('a finished sequence stays finished', z3.Implies(S(a, 'Done'), z3.And(z3.Not(some_), S(b, 'Done'), p == q))),
           ('without lemmas the original problem is given once', z3.Implies(S(a, 'NoLemma'), z3.And(some_, S(b, 'Done'), p == q))),
           ('the next lemma becomes the query', z3.Implies(more, z3.And(some_, fq(eng, q) == zat(eng, lem, 0)))),
           ('the lemma is taken off the queue', z3.Implies(more, pop)),
           ('what was proved before is assumed', z3.Implies(more, app)),
           ('still in the lemma mode', z3.Implies(more, S(b, 'WithLemma'))),
           ('after the query the sequence ends', z3.Implies(z3.And(S(a, 'WithLemma'), lem.len == 0), z3.And(z3.Not(some_), S(b, 'Done'), p == q)))]
    out += [('%s (all steps)' % n, g) for n, g in rest_same(eng, q, p, 'lemmas', 'query', 'assertions')]
    return out



def frame(eng, a, b, what=''):
    """only the learned instances of the problem may change"""
    return [('%s of the problem untouched%s' % (n, what), fld(eng, PBL, b, n) == fld(eng, PBL, a, n)) for n in fnames(eng, PBL) if n != 'extra_instances']


def framed(eng, st, r):
    """after an operation that may only learn instances"""
    v = eng.z(eng.load(st, r), PBL, st)
    w = eng.fresh('pbl', eng.sort(PBL))
    for _, g in frame(eng, v, w):
        st.assume(g)
    eng.store(st, r, Z(w, PBL))
    return v


def frame_post(i):
    def post(cx):
        return frame(cx.eng, cx.z(i), cx.znew(i))
    return post


RRES = c01.RESULT(adt(CV + 'runner::runners::RunnerResult'))


def work_fn(eng, what, rty):
    return z3.Function(what, eng.sort(PBL), eng.sort(rty))


def note_work(cx, i, what):
    """record the sub-problem that is handed out, and answer with a function of it"""
    eng, st = cx.eng, cx.st
    p = cx.z(i)
    if 'handed' in st.ghost:
        st.ghost['handed'] = Z(p, PBL)
        st.ghost['handouts'] = Z(st.ghost['handouts'].e + 1, USIZE)
    return p, work_fn(eng, what, cx.rty)(p)


def a_autorun(cx):
    p, r = note_work(cx, 1 + 1, 'autorun')
    for m in mutrefs(cx.args[2]):
        framed(cx.eng, cx.st, m)
    return [(cx.st, Z(r, cx.rty))]


def a_save(cx):
    st = cx.st
    p, r = note_work(cx, 1, 'saved')
    if 'count' in st.ghost:
        cx.eng.oblige(st, 'the file is named after the number of the sub-problem', st.ghost['shown'].e)
    if 'path' in st.ghost:
        cx.eng.oblige(st, 'the problem goes to the requested file', cx.z(2) == st.ghost['path'].e)
    return [(st, Z(r, cx.rty))]


def a_many(cx):
    for m in mutrefs(cx.args[1]):
        framed(cx.eng, cx.st, m)
    return [(cx.st, cx.eng.fresh_val('round', cx.rty, cx.st))]


def frame_inv(L):
    eng = L.eng
    return frame(eng, eng.z(L.var('pbl', L.entry), PBL, L.entry), eng.z(L.var('pbl'), PBL, L.st))


def iter_hook(eng, st, c, args, atys, dty):
    """collecting the results of the sub-problem sequence: one arbitrary step of it"""
    if c.method in ('new_display', 'new_debug') and 'shown' in st.ghost and atys and peel(atys[0]) == I32:
        st.ghost['shown'] = Z(z3.Or(st.ghost['shown'].e, eng.z(args[0], I32, st) == st.ghost['count'].e), BOOL_TY)
        return None
    if c.method in ('discover', 'dyn_discover') and c.kind == 'trait' and c.trait.split('::')[-1] in ('Discoverer', 'DynDiscoverer'):
        for m in mutrefs(args[2]):
            framed(eng, st, m)
        return [(st, eng.fresh_val('discovered', dty, st))]
    if c.method == 'into_general_file':
        p, e = eng.z(args[0], PBL, st), eng.z(args[1], ENV, st)
        return [(st, Z(z3.Function('general_file', p.sort(), e.sort(), eng.sort(dty))(p, e), dty))]
    if c.method in ('spawn', 'send'):
        return [(st, eng.fresh_val('sent', dty, st) if c.method == 'send' else Opq(None, 'join handle'))]
    if c.method == 'search_instances' or (c.method in ('translate_vars', 'max_var_no_extras') and 'extra' in st.ghost):
        return [(st, eng.fresh_val('instances', dty, st))]
    if c.method == 'from_general_file':
        e, g = eng.z(args[0], ENV, st), eng.z(args[1], GF, st)
        return [(st, Z(z3.Function('smt_file', e.sort(), g.sort(), eng.sort(SMTF))(e, g), SMTF))]
    if c.method == 'write_to_io':
        v = args[0]
        if isinstance(v, MutRef):
            v = eng.load(st, v)
        d = eng.project(v, peel(atys[0]), eng.variants(eng.canon(peel(atys[0])))[0][0], 1, Ty(('ref', False, SMTF)), st)
        if 'smtfile' in st.ghost:
            st.ghost['written'] = Z(st.ghost['written'].e + 1, USIZE)
            eng.oblige(st, 'what is written is the SMT file of this problem', eng.z(d, SMTF, st) == st.ghost['smtfile'].e)
        r = eng.fresh_val('io', dty, st)
        if 'smtfile' in st.ghost:
            st.ghost['iook'] = Z(z3.And(st.ghost['iook'].e, r.e.sort().recognizer(0)(r.e)), BOOL_TY)
        return [(st, r)]
    if c.method != 'collect' or c.kind != 'trait' or not atys or atys[0] is None or peel(atys[0])[0] != 'adt' or not peel(atys[0])[1].endswith('pbl_iterator::InnerPblIter'):
        return None
    it = args[0]
    pi, f = it.fields[0], it.fields[1]
    init = eng.z(eng.load(st, pi), PI, st)
    s2 = st.copy()
    a = eng.fresh('iter', eng.sort(PI))
    eng.store(s2, pi, Z(a, PI))
    s2.ghost['handed'] = Z(eng.fresh('none', eng.sort(PBL)), PBL)
    s2.ghost['handouts'] = Z(z3.IntVal(0), USIZE)
    counters = int_cells(eng, s2, f)
    k = eng.fresh('k', z3.IntSort())
    s2.assume(z3.And(k >= 0, k < (1 << 31) - 1))  # fewer than 2^31 sub-problems
    for r in counters:
        eng.oblige(st, 'the numbering starts at 0', eng.z(eng.load(st, r), I32, st) == 0)
        eng.store(s2, r, Z(k, I32))
    if counters:
        s2.ghost['count'] = Z(k, I32)
        s2.ghost['shown'] = Z(z3.BoolVal(False), BOOL_TY)
    cell = (next(eng.frames), 'iter')
    s2.mem[cell] = it
    c2 = Callee()
    ut = peel(atys[0])[2][-1]
    c2.kind, c2.self_ty, c2.trait, c2.targs, c2.method, c2.margs, c2.path, c2.tyargs = 'trait', peel(atys[0]), 'std::iter::Iterator', [], 'next', [], None, []
    c2.text = 'Iterator::next'
    t0 = Ty(('ref', True, peel(atys[0])))
    for s3, v in eng.dispatch(s2, c2, [MutRef(cell, (), peel(atys[0]))], [t0], option_ty(ut), eng.stack[-1] if eng.stack else None, {}):
        b = eng.z(eng.load(s3, pi), PI, s3)
        given = isinstance(v, Agg) and v.variant == 1
        if not isinstance(v, Agg):
            raise Unsupported('result of the sub-problem iterator')
        h, n = s3.ghost['handed'].e, s3.ghost['handouts'].e
        if given:
            # what the caller works on is the problem the step yields, before anything is learned
            mid = eng.fresh('mid', eng.sort(PI))
            names = fnames(eng, PI)
            for nm in names:
                s3.assume(fld(eng, PI, mid, nm) == (h if nm == 'pbl' else fld(eng, PI, b, nm)))
            eng.oblige(s3, 'each sub-problem is handed out exactly once', n == 1)
            for nm, g in step(eng, a, mid, z3.BoolVal(True)):
                eng.oblige(s3, 'sub-problem handed out: ' + nm, g)
            for nm, g in frame(eng, h, fld(eng, PI, b, 'pbl')):
                eng.oblige(s3, nm + ' by the work on it', g)
            rv = eng.z(v.fields[0], ut, s3)
            w = 'autorun' if eng.canon(ut) == eng.canon(RRES) else 'saved'
            eng.oblige(s3, 'its result is the result of that work', rv == work_fn(eng, w, ut)(h))
            for r in counters:
                eng.oblige(s3, 'the numbering goes up by one', z3.Implies(eng.sort(ut).recognizer(0)(rv), eng.z(eng.load(s3, r), I32, s3) == k + 1))
        else:
            eng.oblige(s3, 'nothing is handed out at the end', n == 0)
            for nm, g in step(eng, a, b, z3.BoolVal(False)):
                eng.oblige(s3, 'end of the sub-problems: ' + nm, g)
    st.ghost['collected'] = Z(init, PI)
    eng.assumptions.add('collecting an iterator of results calls next until it is exhausted or yields the first error, which is returned')
    return [(st, Z(collected(eng, dty)(init), dty))]


def collected(eng, t):
    return z3.Function('collected<%s>' % eng.sort(t).name(), eng.sort(PI), eng.sort(t))


def int_cells(eng, st, f):
    """integer locals captured by mutable reference"""
    v = eng.load(st, f) if isinstance(f, MutRef) else f
    out = []
    for x in getattr(v, 'upvars', None) or getattr(v, 'fields', None) or getattr(v, 'caps', ()):
        if isinstance(x, MutRef) and x.ty is not None and peel(x.ty) == I32:
            out.append(x)
    return out


I32 = Ty(('prim', 'i32'))
ENV = adt(CV + 'environement::environement::Environement')


def run_post(cx):
    return [('the result is the one of the sub-problem sequence, first failure first', cx.zret == collected(cx.eng, cx.rty)(cx.z(1)))]


def dir_post(cx):
    so = cx.zret.sort()
    return [('success only if every sub-problem was written', z3.Implies(so.recognizer(0)(cx.zret), cx.zret == collected(cx.eng, cx.rty)(cx.z(1))))]


def file_args(eng, st, t):
    r = arb(eng, st, 'path', t)
    for s, v in r:
        s.ghost['path'] = Z(eng.z(v, peel_ref(t), s), peel_ref(t))
        s.ghost['handed'] = Z(eng.fresh('none', eng.sort(PBL)), PBL)
        s.ghost['handouts'] = Z(z3.IntVal(0), USIZE)
    return r


def file_post(cx):
    eng = cx.eng
    so = cx.zret.sort()
    ok = so.recognizer(0)(cx.zret)
    h, n = cx.st.ghost['handed'].e, cx.st.ghost['handouts'].e
    a = cx.z(1)
    return [('success means exactly one problem was written', z3.Implies(ok, z3.And(n == 1, in_state(eng, a, 'NoLemma'), h == fld(eng, PI, a, 'pbl')))),
            ('never more than one file', n <= 1)]


GF = adt(CV + 'formula::file_descriptior::GeneralFile')
SMTF = adt(CV + 'smt::smt::SmtFile')


def save_args(eng, st, t):
    """the problem: what has to be written is its SMT file"""
    r = arb(eng, st, 'pbl', t)
    for s, v in r:
        s.ghost['written'] = Z(z3.IntVal(0), USIZE)
        s.ghost['iook'] = Z(z3.BoolVal(True), BOOL_TY)
        p, e = eng.z(eng.load(s, v), PBL, s), z3.Const('the env', eng.sort(ENV))
        g = z3.Function('general_file', p.sort(), e.sort(), eng.sort(GF))(p, e)
        s.ghost['smtfile'] = Z(z3.Function('smt_file', e.sort(), g.sort(), eng.sort(SMTF))(e, g), SMTF)
    return r


def save_post(cx):
    ok = cx.zret.sort().recognizer(0)(cx.zret)
    g = cx.st.ghost
    return [('the problem is only read', cx.z(1) == cx.znew(1)),
            ('success means the problem was written', z3.Implies(ok, z3.And(g['written'].e == 1, g['iook'].e)))]


def sequence(eng):
    """from a problem with lemmas l0..ln-1 and query q the sub-problems are l0, ..., ln-1, q; the k-th assumes
    the user assertions and only the first k of these"""
    PS = eng.sort(PBL)
    p0 = z3.Const('p0', PS)
    A0, L0, q0 = fseq(eng, p0, 'assertions'), fseq(eng, p0, 'lemmas'), fq(eng, p0)
    n = L0.len
    T = true_arf(eng)
    goal = lambda k: z3.If(k == n, q0, zat(eng, L0, k))
    i = z3.Int('i')

    def inv(it, k):
        """state after k sub-problems (k >= 0)"""
        p = fld(eng, PI, it, 'pbl')
        A, Lm = fseq(eng, p, 'assertions'), fseq(eng, p, 'lemmas')
        return [in_state(eng, it, 'WithLemma'), k >= 0, k <= n + 1,
                Lm.len == n + 1 - k, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Lm.len), zat(eng, Lm, i) == goal(i + k))),
                A.len == A0.len + k, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < A0.len), zat(eng, A, i) == zat(eng, A0, i))),
                z3.Implies(k > 0, zat(eng, A, A0.len) == T),
                z3.ForAll([i], z3.Implies(z3.And(i > A0.len, i < A.len), zat(eng, A, i) == goal(i - A0.len - 1))),
                fq(eng, p) == z3.If(k == 0, T, goal(k - 1))]
    IS = eng.sort(PI)
    a, m, b = z3.Consts('a m b', IS)
    k = z3.Int('k')
    out = []
    # base: what PblIterator::new establishes with lemmas
    class CX:
        pass
    cx = CX()
    cx.eng, cx.zret = eng, a
    cx.z = lambda j: p0 if j == 0 else z3.BoolVal(True)
    hyps = [g for _, g in new_post(cx)] + [n >= 0, A0.len >= 0]
    for j, g in enumerate(inv(a, z3.IntVal(0))):
        out.append(('initially (%d)' % j, hyps, g))
    # step: next() yields m, then the caller may learn instances (b)
    some_ = z3.Bool('some')
    hy = [n >= 0] + inv(a, k) + [g for _, g in step(eng, a, m, some_)] + [g for _, g in frame(eng, fld(eng, PI, m, 'pbl'), fld(eng, PI, b, 'pbl'))] + [fld(eng, PI, b, 'state') == fld(eng, PI, m, 'state')]
    out.append(('as long as something is left a sub-problem is given', hy, some_ == (k <= n)))
    for j, g in enumerate(inv(b, k + 1)):
        out.append(('after one more sub-problem (%d)' % j, hy + [some_], g))
    out.append(('after the query the sequence is over', hy + [z3.Not(some_)], z3.And(k == n + 1, in_state(eng, b, 'Done'))))
    return out


def hook(eng, st, c, args, atys, dty):
    if c.method == 'deref' and args and isinstance(args[0], StaticRef) and args[0].path == FN + 'builtin::TRUE':
        return [(st, Z(true_rf(eng), RF))]
    return None


def true_rf(eng):
    F = F_(eng)
    so = eng.sort(RF)
    c = z3.Const('static<TRUE>', so)
    eng.axiom('static TRUE', lambda: z3.And(F.is_fun(c), F.fn(c) == static_fun(eng, 'TRUE_F'), F.len(F.args(c)) == 0))
    return c


def true_arf(eng):
    return F_(eng).arc(true_rf(eng))


def true_gen(cx):
    F = F_(cx.eng)
    r = cx.zret
    return [('TRUE is the true symbol applied to nothing', z3.And(F.is_fun(r), F.fn(r) == static_fun(cx.eng, 'TRUE_F'), F.len(F.args(r)) == 0))]


PBLR = c01.RESULT(PBL)


def top_hook(eng, st, c, args, atys, dty):
    """the top level: parse, build the sequence, run it"""
    if 'top' not in st.ghost:
        return None
    m = c.method
    if m == 'scoped':
        return eng.call_value(st, args[0], [Opq(None, 'container')], dty)
    if m in ('from_with', 'into_with'):
        return [(st, Z(z3.Const('the env', eng.sort(ENV)), ENV))]
    if m in ('use_lemmas', 'are_lemmas_ignored', 'allow_shadowing'):
        e = eng.z(args[0], ENV, st)
        return [(st, Z(z3.Function(m, e.sort(), z3.BoolSort())(e), BOOL_TY))]
    if m == 'parse_pbl_from_ast':
        eng.oblige(st, 'lemmas are dropped only when they are to be ignored', eng.z(args[5], BOOL_TY, st) == z3.Function('are_lemmas_ignored', eng.sort(ENV), z3.BoolSort())(z3.Const('the env', eng.sort(ENV))))
        return [(st, Z(z3.Const('parsed', eng.sort(PBLR)), PBLR))]
    if m in ('try_into', 'to_path_buf', 'provide') or (m in ('deref', 'iter', 'cloned') and isinstance(args[0], (StaticRef, Opq))):
        return [(st, eng.fresh_val(m, dty, st) if m != 'deref' and m not in ('iter', 'cloned') else Opq(dty, 'builtins'))]
    if m in ('iter', 'map') and c.kind == 'path' and '&str' in c.text:
        return [(st, Opq(dty, 'keywords'))]
    return None


def a_run(kind):
    def apply(cx):
        eng, st = cx.eng, cx.st
        r = eng.fresh('ran', eng.sort(cx.rty))
        if 'top' in st.ghost:
            env = z3.Const('the env', eng.sort(ENV))
            lem = z3.Function('use_lemmas', env.sort(), z3.BoolSort())(env)
            P = z3.Const('parsed', eng.sort(PBLR))
            eng.oblige(st, 'runs on the configured environment', cx.z(0) == env)

            class X:
                pass
            x = X()
            x.eng, x.zret = eng, cx.z(1)
            x.z = lambda j: P.sort().accessor(0, 0)(P) if j == 0 else lem
            eng.oblige(st, 'runs only when the input was parsed', P.sort().recognizer(0)(P))
            for n, g in new_post(x):
                eng.oblige(st, 'runs the sequence of the parsed problem: ' + n, g)
            if kind != 'auto':
                eng.oblige(st, 'a directory exactly when lemmas are used', lem == z3.BoolVal(kind == 'dir'))
            st.ghost['runs'] = Z(st.ghost['runs'].e + 1, USIZE)
            st.ghost['ok'] = Z(r.sort().recognizer(0)(r), BOOL_TY)
            st.ghost['err'] = Z(r.sort().accessor(1, 0)(r), c01.ERR)
            if kind == 'auto':
                st.ghost['out'] = Z(r.sort().accessor(0, 0)(r), peel(cx.rty)[2][0])
        return [(st, Z(r, cx.rty))]
    return apply


def top_args(eng, st, t):
    g = st.ghost
    g['top'] = 1
    g['runs'] = Z(z3.IntVal(0), USIZE)
    g['ok'] = Z(z3.BoolVal(False), BOOL_TY)
    g['err'] = Z(eng.fresh('err', eng.sort(c01.ERR)), c01.ERR)
    g['out'] = eng.fresh_val('out', VECT(adt(CV + 'runner::runners::RunnerResult')), st)
    return arb(eng, st, 'args', t)


RETURN = adt(CV + 'return_value::Return')


def top_post(cx):
    eng = cx.eng
    g = cx.st.ghost
    r = cx.zret
    so = r.sort()
    ok, val = so.recognizer(0)(r), so.accessor(0, 0)(r)
    P = z3.Const('parsed', eng.sort(PBLR))
    auto = is_ctor_(eng, RETURN, 'AutoRun', val)
    one = g['runs'].e == 1
    return [('success means the sequence ran and succeeded', z3.Implies(ok, z3.And(one, g['ok'].e))),
            ('the sequence runs at most once', g['runs'].e <= 1),
            ('a failing run is reported', z3.Implies(z3.And(one, z3.Not(g['ok'].e)), z3.And(z3.Not(ok), so.accessor(1, 0)(r) == g['err'].e))),
            ('an input that does not parse is reported', z3.Implies(P.sort().recognizer(1)(P), z3.And(z3.Not(ok), so.accessor(1, 0)(r) == P.sort().accessor(1, 0)(P)))),
            ('the answers reported are those of the run', z3.Implies(z3.And(ok, auto), acc(eng, RETURN, 'AutoRun', 0, val) == eng.z(g['out'], None, cx.st)))]


def extra_args(eng, st, t):
    st.ghost['extra'] = 1
    return arb(eng, st, 'pbl', t)


def inline(cx):
    """use the (verified) body itself"""
    eng = cx.eng
    ct = eng.contracts.pop(id(cx.fn))
    try:
        return eng.run_fn(cx.fn, cx.args, cx.st, cx.tenv)
    finally:
        eng.contracts[id(cx.fn)] = ct


def contracts():
    m = dict(crate='cryptovampire')
    I = r'^impl\S* PblIterator<'
    st = dict(m, mod=r'^problem::problem::pbl_iterator::state::')
    rn = r'^runner::runners::'
    lib = lambda n: dict(m, method=n, mod=r'^%s$' % n)
    return [
        Contract('static TRUE', static_anchor('TRUE'), ensures=true_gen),
        Contract('PblIterator::new', dict(m, method='new', impl=I), ensures=new_post),
        Contract('PblIterator::next', dict(m, method='next', impl=I), ensures=next_post, apply=inline, doc='its verified body is used at call sites'),
        Contract('PblIterator::assert_one', dict(m, method='assert_one', impl=I), ensures=lambda cx: [('one problem', cx.zret == in_state(cx.eng, cx.z(0), 'NoLemma'))]),
        Contract('extend_extra_instances', dict(m, method='extend_extra_instances', impl=r'^impl\S* Problem<'), ensures=frame_post(0), modifies=(0,), tys={'impl IntoIterator': VECT(ARF)}),
        Contract('VampireExec::discover', dict(m, method='discover', impl=r'Discoverer for VampireExec'), ensures=frame_post(2), panics=True, mk_args={2: extra_args}),
        Contract('DynDiscoverer::dyn_discover', dict(m, method='dyn_discover', impl=r'for T'), ensures=frame_post(2)),
        Contract('killall', dict(m, method='killall', mod=rn), trusted=True, apply=lambda cx: [(cx.st, cx.eng.fresh_val('killed', cx.rty, cx.st))], doc='stopping the other solvers has no access to the problem'),
        Contract('autorun_many', dict(m, method='autorun_many', mod=rn), ensures=frame_post(1), apply=a_many, loops=[(None, lambda L: [])]),
        Contract('Runners::autorun', dict(m, method='autorun', mod=rn), ensures=frame_post(2), apply=a_autorun, loops=[(None, frame_inv)]),
        Contract('auto_run', lib('auto_run'), apply=a_run('auto'), ensures=run_post),
        Contract('save_to_file', lib('save_to_file'), mk_args={0: lambda eng, st, t: [(st, Z(z3.Const('the env', eng.sort(ENV)), ENV))], 1: save_args}, ensures=save_post, apply=a_save),
        Contract('run_to_dir', lib('run_to_dir'), apply=a_run('dir'), ensures=dir_post),
        Contract('run_to_file', lib('run_to_file'), apply=a_run('file'), ensures=file_post, mk_args={2: file_args}),
        Contract('run_from_ast', lib('run_from_ast'), ensures=top_post, mk_args={0: top_args}, tys={'S': '&str'}),
    ]


HOOKS = [hook, top_hook, iter_hook, static_hook, ref_hook, c01.scope_hook, c01.err_hook, c01.hook]
LEMMAS = [('the sub-problem sequence', sequence)]
NOTE = ('Contracts, proved for all inputs: the sub-problem iterator (queue built from the lemmas and the query, taking the next one assumes exactly what came before), '
        'the induction over the number of lemmas turning these contracts into the statement, the frame condition of the solver runs (they change nothing but extra instances), '
        'auto_run, run_to_dir, run_to_file and run_from_ast up to the reported result. The command-line flags and the order of lemmas in the parsed file are checked end to end on generated files (bounded).')
ASSUMPTIONS = ['collecting an iterator of Results stops at the first Err and returns it',
               'fewer than 2^31 sub-problems',
               'stopping the other solvers (killall) has no access to the problem',
               'the instance discovery of vampire output (search_instances, translate_vars) only yields values, it does not touch the problem']
