"""C01: a goal is reported proven only when a solver answered unsat on it."""
from speclib import *
import models
from engine import FnItem, peel, peel_ref, mutrefs, State, is_num, num

RN = CV + 'runner::runner::'
ROUT = RN + 'RunnerOut'
RCS = adt(CV + 'runner::runner_helper::RetCodeAndStdout')
STRING = adt('std::string::String')
UNITT = Ty(('tuple', ()))
ERR = adt(CV + 'error::error::Error')
RESULT = lambda t: adt('std::result::Result', t, ERR)


def hook(eng, st, c, args, atys, dty):
    m = c.method
    if c.kind == 'trait' and c.trait.split('::')[-1] in ('Runner', 'RunnerHandler') and c.self_ty is not None and peel(c.self_ty)[0] in ('param', 'proj'):
        # an arbitrary runner / handler: any answer
        return [(st, eng.fresh_val('any', dty, st))]
    if c.kind == 'trait' and m in ('from', 'into') and c.trait.split('::')[-1] in ('From', 'Into') and atys and atys[0] is not None and peel(atys[0])[0] in ('param', 'proj'):
        return [(st, eng.fresh_val('conv', dty, st))]
    if m == 'is_file' and c.path == 'std::path::Path::is_file':
        return [(st, Z(z3.Bool('is_file'), BOOL_TY))]
    if m == 'lines':
        s = eng.z(args[0], None, st)
        lt = lst(Ty(('ref', False, STR_TY)))
        f = z3.Function('lines', s.sort(), eng.sort(lt))
        return [(st, It(eng.as_seq(Z(f(s), lt), st)))]
    if m == 'trim' and atys and atys[0] is not None and peel(atys[0]) == STR_TY:
        s = eng.z(args[0], None, st)
        f = z3.Function('trim', s.sort(), s.sort())
        return [(st, Z(f(s), Ty(('ref', False, STR_TY))))]
    if m == 'code' and c.path is not None and c.path.endswith('ExitStatus::code'):
        t = option_ty(Ty(('prim', 'i32')))
        return [(st, Z(z3.Const('exit_code', eng.sort(t)), t))]
    return None


# ---------------------------------------------------------------- the concurrent round
DT = CV + 'runner::runner_helper::dyn_traits::'
HANDLER = adt(CV + 'runner::runners::Handler')
RAD = adt(DT + 'RunnerAndDiscoverer', HANDLER)
DYNBOX = Ty(('opaque', 'dyn std::any::Any + std::marker::Send'))
ROUTDYN = adt(ROUT, DYNBOX, DYNBOX, DYNBOX, DYNBOX)
ROUTDYNR = RESULT(ROUTDYN)
MSG = Ty(('tuple', (RAD, ROUTDYNR)))


def answer(eng):
    """what running a runner on the current problem answers in this round"""
    return z3.Function('answer', eng.sort(RAD), eng.sort(ROUTDYNR))


def dyn_answer(eng, so):
    return z3.Function('dyn_answer<%s>' % so.name(), so, eng.sort(ROUTDYNR))


def msgs(eng):
    return eng.as_seq(Z(z3.Const('messages', eng.sort(lst(MSG))), lst(MSG)))


def killall_res(eng):
    t = RESULT(UNITT)
    return z3.Const('killall_result', eng.sort(t)), t


def scope_hook(eng, st, c, args, atys, dty):
    m = c.method
    if c.kind == 'path' and c.path == 'std::thread::scope':
        return eng.call_value(st, args[0], [Opq(None, 'scope')], dty)
    if c.kind == 'path' and c.path == 'std::sync::mpsc::channel':
        return [(st, Agg(dty, 0, [Opq(None, 'sender'), Opq(None, 'receiver')]))]
    if m == 'spawn' and 'Scope' in c.text:
        # run the thread's body on a copy of the state: its effects are the message it sends
        s2 = st.copy()
        s2.ghost['sent'] = Z(z3.IntVal(0), USIZE)
        for s3, _ in eng.call_value(s2, args[1], [], None):
            eng.oblige(s3, 'a solver thread reports exactly once', s3.ghost['sent'].e == 1)
        return [(st, Opq(None, 'join handle'))]
    if m == 'send' and 'Sender' in c.text and 'sent' in st.ghost:
        msg = args[1]
        r, a = eng.z(msg.fields[0], RAD, st), eng.z(msg.fields[1], ROUTDYNR, st)
        eng.oblige(st, 'a thread reports the answer of its own solver', a == answer(eng)(r))
        rs = st.ghost.get('runners')
        if rs is not None:
            n, nth = eng.list_fns(lst(RAD))
            i = z3.Int('i')
            eng.oblige(st, 'only configured solvers report', z3.Exists([i], z3.And(i >= 0, i < n(rs.e), nth(rs.e, i) == r)))
        st.ghost['sent'] = Z(st.ghost['sent'].e + 1, USIZE)
        return [(st, eng.fresh_val('sent', dty, st))]
    if m == 'into_iter' and isinstance(args[0], Opq) and args[0].tag == 'receiver' and 'RunnerAndDiscoverer' in c.text:
        return [(st, It(msgs(eng)))]
    if m == 'dyn_run_to_tmp' and c.kind == 'trait' and peel(c.self_ty)[0] == 'opaque':
        e = eng.z(args[0], peel(c.self_ty), st)
        return [(st, Z(dyn_answer(eng, e.sort())(e), ROUTDYNR))]
    if m == 'dyn_discover' and c.kind == 'trait' and peel(c.self_ty)[0] == 'opaque':
        for r in mutrefs(args[2]):
            v = eng.load(st, r)
            eng.store(st, r, eng.fresh_val('disc', v.ty, st) if v.ty is not None else Opq(None))
        return [(st, eng.fresh_val('discovered', dty, st))]
    if m == 'get' and 'NonZero' in c.text:
        a = eng.z(args[0], peel_ref(atys[0]), st)
        f = z3.Function('nz_get', a.sort(), z3.IntSort())
        st.assume(z3.And(f(a) >= 1, f(a) <= UVAR_MAX))
        return [(st, Z(f(a), U32))]
    if m == 'which' and c.kind == 'path' and c.path == 'which::which':
        a = eng.z(args[0], peel_ref(atys[0]), st)
        return [(st, Z(z3.Function('which', a.sort(), eng.sort(dty))(a), dty))]
    return None


def outk(eng, name, a):
    so = eng.sort(ROUTDYNR)
    return z3.And(so.recognizer(0)(a), vr(eng, ROUTDYN, name, so.accessor(0, 0)(a)))


def decisive(eng, a):
    so = eng.sort(ROUTDYNR)
    return z3.Or(so.recognizer(1)(a), outk(eng, 'Sat', a), outk(eng, 'Unsat', a))


def msg_ans(eng, i):
    return acc(eng, MSG, 'tuple', 1, eng.z(msgs(eng).at(i), MSG, State()))


def many_inv(L):
    eng = L.eng
    j = z3.Int('j!inv')
    for c, it in L.iters():
        if it.seq.z is not None and it.seq.z.eq(z3.Const('messages', eng.sort(lst(MSG)))):
            return [('no earlier answer was decisive', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < it.lo), z3.Not(decisive(eng, msg_ans(eng, j))))))]
    return []


def many_post(cx):
    eng = cx.eng
    r = cx.zret
    so = r.sort()
    n = msgs(eng).len
    i, j = z3.Ints('i j')
    K, _ = killall_res(eng)
    kill = K.sort().recognizer(0)(K)
    rt = peel(cx.rty)[2][0]
    ok = so.recognizer(0)(r)
    val = so.accessor(0, 0)(r)
    before = lambda i: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.Not(decisive(eng, msg_ans(eng, j)))))
    first = lambda k: z3.Exists([i], z3.And(i >= 0, i < n, k(msg_ans(eng, i)), before(i)))
    asoc = eng.sort(ROUTDYNR)
    err = so.accessor(1, 0)(r)
    fi = lambda k, g: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, k(msg_ans(eng, i)), before(i)), g))
    unsat = z3.And(ok, vr(eng, rt, 'Unsat', val))
    return [('proven only if the first decisive answer is unsat', z3.Implies(unsat, first(lambda a: outk(eng, 'Unsat', a)))),
            ('unsat answer proves', fi(lambda a: outk(eng, 'Unsat', a), z3.Implies(kill, unsat))),
            ('sat answer disproves', fi(lambda a: outk(eng, 'Sat', a), z3.And(so.recognizer(1)(r), z3.Implies(kill, err == disproof(eng))))),
            ('solver failure is reported', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, asoc.recognizer(1)(msg_ans(eng, i)), before(i)), z3.And(so.recognizer(1)(r), z3.Implies(kill, err == asoc.accessor(1, 0)(msg_ans(eng, i))))))),
            ('no decisive answer means another try or an error', z3.Implies(before(n), z3.Or(so.recognizer(1)(r), vr(eng, rt, 'Timeout', val)))),
            ('only unsat or timeout', z3.Implies(ok, z3.Or(vr(eng, rt, 'Unsat', val), vr(eng, rt, 'Timeout', val))))]


RERR = adt(CV + 'runner::error::RunnerError')


def err_fn(eng):
    return z3.Function('error_of', eng.sort(RERR), eng.sort(ERR))


def disproof(eng):
    return err_fn(eng)(ctor(eng, RERR, 'Disprove'))


def err_hook(eng, st, c, args, atys, dty):
    """RunnerError::x.no_location(): the error is a function of the RunnerError (the backtrace is ignored)"""
    if c.kind == 'trait' and c.trait.split('::')[-1] == 'CVContext' and c.method in ('no_location', 'with_location') and c.self_ty is not None and eng.canon(peel(c.self_ty)) == eng.canon(RERR):
        return [(st, Agg(dty, 1, [Z(err_fn(eng)(eng.z(args[0], RERR, st)), ERR)]))]
    return None


def many_args(eng, st, t):
    r = arb(eng, st, 'runners', t)
    for s, v in r:
        s.ghost['runners'] = Z(eng.z(v, peel_ref(t), s), lst(RAD))
    return r


RETMANY = None


def a_many(cx):
    eng, st = cx.eng, cx.st
    for r in mutrefs(cx.args[1]):
        v = eng.load(st, r)
        eng.store(st, r, eng.fresh_val('pbl', v.ty, st) if v.ty is not None else Opq(None))
    r = eng.fresh_val('round', cx.rty, st)
    so = r.e.sort()
    rt = peel(cx.rty)[2][0]
    val = so.accessor(0, 0)(r.e)
    st.assume(z3.Implies(so.recognizer(0)(r.e), z3.Or(vr(eng, rt, 'Unsat', val), vr(eng, rt, 'Timeout', val))))
    if 'rounds' in st.ghost:
        st.ghost['rounds'] = Z(st.ghost['rounds'].e + 1, USIZE)
        st.ghost['last'] = Z(r.e, cx.rty)
        rs = eng.z(cx.val(3), lst(RAD), st)
        ln, nth = eng.list_fns(lst(RAD))
        st.ghost['nrun'] = Z(ln(rs), USIZE)
    return [(st, r)]


ROUNDT = RESULT(adt(ROUT, adt('std::convert::Infallible'), UNITT, UNITT, adt('std::convert::Infallible')))


def autorun_args(eng, st, t):
    st.ghost['rounds'] = Z(z3.IntVal(0), USIZE)
    st.ghost['last'] = eng.fresh_val('none', ROUNDT, st)
    st.ghost['nrun'] = Z(z3.IntVal(0), USIZE)
    return arb(eng, st, 'arg0', t)


def autorun_inv(L):
    eng = L.eng
    st = L.st
    rounds = st.ghost['rounds'].e
    last = st.ghost['last'].e
    so = last.sort()
    lo = [it.lo for _, it in L.iters() if it.seq.elt == U32]
    rn = eng.as_seq(L.var('runners'), st)
    return [('every solver ran', z3.Implies(rounds > 0, st.ghost['nrun'].e == rn.len)), ('one round per try', z3.And(rounds >= 0, *[rounds == x for x in lo])),
            ('the previous round timed out', z3.Implies(rounds > 0, z3.And(so.recognizer(0)(last), vr(eng, peel(ROUNDT)[2][0], 'Timeout', so.accessor(0, 0)(last)))))]


def autorun_post(cx):
    eng = cx.eng
    r = cx.zret
    so = r.sort()
    ok = so.recognizer(0)(r)
    RR = adt(CV + 'runner::runners::RunnerResult')
    RUN = adt(CV + 'runner::runners::Runners')
    tries = acc(eng, RR, 'RunnerResult', 0, so.accessor(0, 0)(r))
    rounds, last = cx.st.ghost['rounds'].e, cx.st.ghost['last'].e
    nrun = cx.st.ghost['nrun'].e
    ls = last.sort()
    rt = peel(ROUNDT)[2][0]
    nt = cx.z(3)
    nzs = nt.sort()
    nz = nzs.accessor(1, 0)(nt)
    n = z3.If(nzs.recognizer(0)(nt), z3.IntVal(UVAR_MAX), z3.Function('nz_get', nz.sort(), z3.IntSort())(nz))
    some = [i for i in range(3)]
    slf = cx.z(0)
    fld = [acc(eng, RUN, 'Runners', i, slf) for i in some]
    present = [f.sort().recognizer(1)(f) for f in fld]
    unsat = z3.And(ls.recognizer(0)(last), vr(eng, rt, 'Unsat', ls.accessor(0, 0)(last)))
    lasterr = ls.recognizer(1)(last)
    err = so.accessor(1, 0)(r)
    out = ctor(eng, RERR, 'RanOutOfTries', n)
    return [('proven only when the last round answered unsat', z3.Implies(ok, z3.And(rounds >= 1, unsat))),
            ('unsat ends the run with success', z3.Implies(z3.And(rounds >= 1, unsat), ok)),
            ('the number of tries is the number of rounds', z3.Implies(ok, tries == rounds)),
            ('never more rounds than requested', z3.Or(rounds == 0, rounds <= n)),
            ('a failing round ends the run with its error', z3.Implies(z3.And(rounds >= 1, lasterr), z3.And(z3.Not(ok), err == ls.accessor(1, 0)(last)))),
            ('otherwise every try was used', z3.Implies(z3.And(z3.Not(ok), z3.Not(z3.And(rounds >= 1, lasterr)), z3.Or(present)), z3.And(rounds == n, err == err_fn(eng)(out)))),
            ('without a solver nothing is proven', z3.Implies(z3.Not(z3.Or(present)), z3.And(z3.Not(ok), rounds == 0))),
            ('every configured solver runs in every round', z3.Implies(rounds >= 1, nrun == z3.Sum(*[z3.If(p, 1, 0) for p in present[:2]])))]


def dyn_post(cx):
    """answer of the wrapped runner"""
    eng = cx.eng
    t = peel(cx.tys[0])
    vs = eng.variants(eng.canon(t))
    e = cx.z(0)
    out = []
    for vi, (n, fs) in enumerate(vs):
        x = acc(eng, t, n, 0, e)
        out.append(('%s: answer of the wrapped solver' % n, z3.Implies(vr(eng, t, n, e), cx.zret == dyn_answer(eng, x.sort())(x))))
    return out


def a_dyn(cx):
    t = peel(cx.tys[0])
    e = cx.z(0)
    for _, g in []:
        pass
    return [(cx.st, Z(answer(cx.eng)(e) if cx.eng.canon(t) == cx.eng.canon(RAD) else cx.eng.fresh('a', cx.eng.sort(cx.rty)), cx.rty))]


# ---------------------------------------------------------------- one solver on one problem file
def flags_hook(eng, st, c, args, atys, dty):
    if c.method == 'contains' and 'EnabledSolvers' in c.text:
        a = eng.z(args[0], peel_ref(atys[0]), st)
        b = z3.Const('const:' + args[1].path.split('::')[-1], a.sort()) if isinstance(args[1], FnItem) else eng.z(args[1], peel_ref(atys[1]), st)
        return [(st, Z(z3.Function('flag_in', a.sort(), b.sort(), z3.BoolSort())(a, b), BOOL_TY))]
    return None


def tmp_hook(eng, st, c, args, atys, dty):
    if 'tmp' not in st.ghost:
        return None
    m = c.method
    if c.kind == 'trait' and c.trait.split('::')[-1] == 'Runner' and m in ('run', 'write', 'run_to_tmp'):
        if m == 'write':
            st.ghost['file'] = Z(z3.IntVal(1), USIZE)
            st.ghost['wpbl'] = Z(eng.z(args[2], peel_ref(atys[2]), st), peel_ref(atys[2]))
            st.ghost['wenv'] = Z(eng.z(args[1], peel_ref(atys[1]), st), peel_ref(atys[1]))
            st.ghost['wself'] = Z(eng.z(args[0], peel_ref(atys[0]), st), peel_ref(atys[0]))
            r = eng.fresh_val('written', dty, st)
            st.ghost['wres'] = r
            return [(st, r)]
        r = Z(z3.Const('result_of_' + m, eng.sort(dty)), dty)
        st.ghost['runs'] = Z(st.ghost['runs'].e + 1, USIZE)
        st.ghost['rself'] = Z(eng.z(args[0], peel_ref(atys[0]), st), peel_ref(atys[0]))
        if m == 'run':
            g = st.ghost
            ok = g['wres'].e.sort().recognizer(0)(g['wres'].e) if 'wres' in g else z3.BoolVal(False)
            eng.oblige(st, 'the problem is written before the solver runs', ok)
            if 'wpbl' in g:
                eng.oblige(st, 'the problem written is the one to decide', z3.And(g['wpbl'].e == g['pbl'].e, g['wenv'].e == g['env'].e))
        else:
            g = st.ghost
            eng.oblige(st, 'the solver gets the problem to decide', z3.And(eng.z(args[3], peel_ref(atys[3]), st) == g['pbl'].e, eng.z(args[2], peel_ref(atys[2]), st) == g['env'].e))
        st.ghost['lastres'] = r
        return [(st, r)]
    if m == 'new' and 'BufWriter' in c.text:
        return [(st, Opq(None, 'writer'))]
    return None


def tmp_args(ei, pi):
    def mk(key, eng, st, t):
        st.ghost['tmp'] = 1
        st.ghost['runs'] = Z(z3.IntVal(0), USIZE)
        r = arb(eng, st, key, t)
        for s, v in r:
            s.ghost[key] = Z(eng.z(v, peel_ref(t), s), peel_ref(t))
        return r
    return {ei: lambda eng, st, t: mk('env', eng, st, t), pi: lambda eng, st, t: mk('pbl', eng, st, t)}


def tmp_post(m):
    def post(cx):
        eng = cx.eng
        r = cx.zret
        so = r.sort()
        runs = cx.st.ghost['runs'].e
        ok = so.recognizer(0)(r)
        g = [('at most one run', runs <= 1), ('no answer without a run', z3.Implies(runs == 0, z3.Not(ok)))]
        if not is_num(runs) or num(runs) > 0:
            it = peel(cx.rty)[2][0]
            inner = eng.sort(cx.rty) if m == 'run' else None
            res = [x for x in [cx.st.ghost.get('res')] if x is not None]
            rr = cx.st.ghost['lastres'] if 'lastres' in cx.st.ghost else None
            if rr is not None:
                q = rr.e.sort()
                rit = peel(rr.ty)[2][0]
                names = [n for n, _ in eng.variants(eng.canon(it))]
                g.append(('fails exactly when the run fails', z3.Implies(runs == 1, ok == q.recognizer(0)(rr.e))))
                g.append(('same error', z3.Implies(z3.And(runs == 1, z3.Not(ok)), so.accessor(1, 0)(r) == q.accessor(1, 0)(rr.e))))
                for n in names:
                    g.append(('%s stays %s' % (n, n), z3.Implies(z3.And(runs == 1, ok), vr(eng, it, n, so.accessor(0, 0)(r)) == vr(eng, rit, n, q.accessor(0, 0)(rr.e)))))
        return g
    return post


def try_from_post(cx):
    eng = cx.eng
    SC = adt(CV + 'environement::environement::SolverConfig')
    r = cx.zret
    so = r.sort()
    RUN = adt(CV + 'runner::runners::Runners')
    slf = so.accessor(0, 0)(r)
    fld = [acc(eng, RUN, 'Runners', i, slf) for i in range(3)]
    present = [f.sort().recognizer(1)(f) for f in fld]
    cfg = cx.z(0)
    names = [f for f, _ in eng.variants(eng.canon(SC))[0][1]]
    flags = acc(eng, SC, 'SolverConfig', names.index('enable_solvers'), cfg)
    g = [('some solver is configured', z3.Implies(so.recognizer(0)(r), z3.Or(present)))]
    for i, n in ((0, 'VAMPIRE'), (1, 'Z3')):
        on = z3.Function('flag_in', flags.sort(), flags.sort(), z3.BoolSort())(flags, z3.Const('const:' + n, flags.sort()))
        g.append(('%s only when enabled' % n, z3.Implies(z3.And(so.recognizer(0)(r), present[i]), on)))
    return g


def exec_const(eng):
    return z3.Const('exec_cmd_result', eng.sort(RESULT(RCS)))


def a_exec(cx):
    return [(cx.st, Z(exec_const(cx.eng), RESULT(RCS)))]


def vr(eng, t, name, e):
    return is_ctor_(eng, t, name, e)


def run_table(cx, table):
    """the answer read off what the solver process did"""
    eng = cx.eng
    E = exec_const(eng)
    r = cx.zret
    so = r.sort()
    isf = z3.Bool('is_file')
    ok = so.recognizer(0)(r)
    out = so.accessor(0, 0)(r)
    ro = peel(cx.rty)[2][0]
    ran = z3.And(isf, E.sort().recognizer(0)(E))
    rc = E.sort().accessor(0, 0)(E)
    succ = vr(eng, RCS, 'Success', rc)
    names = [n for n, _ in eng.variants(eng.canon(RCS))]
    fs = [f for f, _ in eng.variants(eng.canon(RCS))[names.index('Success')][1]]
    stdout = acc(eng, RCS, 'Success', fs.index('stdout'), rc)
    code = acc(eng, RCS, 'Success', fs.index('return_code'), rc)
    g = [('no answer when the solver could not be run', z3.Implies(z3.Not(ran), z3.Not(ok))),
         ('a killed solver is never an answer', z3.Implies(z3.And(ran, z3.Not(succ)), z3.And(ok, vr(eng, ro, 'Other', out))))]
    rest = z3.And(ran, succ)
    for n, c in table(eng, code, stdout):
        if n == 'Err':
            g.append(('error answer', z3.Implies(z3.And(rest, c), z3.Not(ok))))
        else:
            g.append(('%s exactly when the solver says so' % n, z3.And(z3.Implies(z3.And(rest, c), z3.And(ok, vr(eng, ro, n, out))), z3.Implies(z3.And(ok, rest, vr(eng, ro, n, out)), c))))
    return g


def z3_table(eng, code, stdout):
    lt = lst(Ty(('ref', False, STR_TY)))
    f = z3.Function('lines', stdout.sort(), eng.sort(lt))
    tr = z3.Function('trim', stdout.sort(), stdout.sort())
    ln, nth = eng.list_fns(lt)
    n = ln(f(stdout))
    last = tr(nth(f(stdout), n - 1))
    z = z3.And(code == 0, n > 0)
    k = [z3.StringVal(x) for x in ('unsat', 'sat', 'timeout')]
    return [('Unsat', z3.And(z, last == k[0])), ('Sat', z3.And(z, last == k[1])), ('Timeout', z3.And(z, last == k[2])),
            ('Other', z3.And(z, *[last != x for x in k])), ('Err', z3.Not(z))]


def vampire_table(eng, code, stdout):
    return [('Unsat', code == 0), ('Timeout', code == 1), ('Sat', z3.BoolVal(False)), ('Err', z3.And(code != 0, code != 1))]


def exec_post(cx):
    eng = cx.eng
    r = cx.zret
    so = r.sort()
    rc = so.accessor(0, 0)(r)
    t = option_ty(Ty(('prim', 'i32')))
    code = z3.Const('exit_code', eng.sort(t))
    names = [n for n, _ in eng.variants(eng.canon(RCS))]
    fs = [f for f, _ in eng.variants(eng.canon(RCS))[names.index('Success')][1]]
    return [('a process ended by a signal is reported killed', z3.Implies(so.recognizer(0)(r), vr(eng, RCS, 'Killed', rc) == code.sort().recognizer(0)(code))),
            ('the exit code is the one of the process', z3.Implies(z3.And(so.recognizer(0)(r), vr(eng, RCS, 'Success', rc)), acc(eng, RCS, 'Success', fs.index('return_code'), rc) == code.sort().accessor(1, 0)(code)))]


def kind_same(cx):
    eng = cx.eng
    names = [n for n, _ in eng.variants(eng.canon(peel(cx.tys[0])))]
    return [('%s stays %s' % (n, n), vr(eng, peel(cx.rty), n, cx.zret) == vr(eng, peel(cx.tys[0]), n, cx.z(0))) for n in names]


def cx_none(cx, i):
    f = acc(cx.eng, adt(CV + 'runner::runners::Runners'), 'Runners', i, cx.z(0))
    return f.sort().recognizer(0)(f)


def contracts():
    m = dict(crate='cryptovampire')
    out = [
        Contract('exec_cmd', dict(m, method='exec_cmd', mod=r'^runner::runner_helper::exec_cmd$'), ensures=exec_post, apply=a_exec),
        Contract('Z3Runner::run', dict(m, method='run', impl=r'Runner for Z3Runner'), ensures=lambda cx: run_table(cx, z3_table)),
        Contract('VampireExec::run', dict(m, method='run', impl=r'Runner for VampireExec'), ensures=lambda cx: run_table(cx, vampire_table), loops=[(None, lambda L: [])]),
        Contract('RunnerOut::into_dyn', dict(m, method='into_dyn', mod=r'^runner::runner::'), ensures=kind_same),
    ]
    rn = r'^runner::runners::'
    out += [
        Contract('killall', dict(m, method='killall', mod=rn), trusted=True, apply=lambda cx: [(cx.st, Z(killall_res(cx.eng)[0], cx.rty))], doc='stopping the other solvers may fail or not'),
        Contract('autorun_many', dict(m, method='autorun_many', mod=rn), ensures=many_post, mk_args={3: many_args}, apply=a_many,
                 loops=[(lambda eng, F, bb: True, many_inv)], panics=None),
        Contract('Runners::autorun', dict(m, method='autorun', mod=rn), ensures=autorun_post, mk_args={0: autorun_args}, loops=[(None, autorun_inv)]),
        Contract('Runners::all_empty', dict(m, method='all_empty', mod=rn), ensures=lambda cx: [('no solver', cx.zret == z3.And([cx_none(cx, i) for i in range(3)]))]),
        Contract('RunnerAndDiscoverer::dyn_run_to_tmp', dict(m, method='dyn_run_to_tmp', impl=r'for RunnerAndDiscoverer'), ensures=dyn_post, apply=a_dyn),
        Contract('Runner::run_to_tmp', dict(m, method='run_to_tmp', mod=r'^runner::runner::Runner::run_to_tmp$'), ensures=tmp_post('run'), mk_args=tmp_args(2, 3)),
        Contract('DynRunner::dyn_run_to_tmp', dict(m, method='dyn_run_to_tmp', impl=r'for T'), ensures=tmp_post('run_to_tmp'), mk_args=tmp_args(2, 3)),
        Contract('Runners::try_from', dict(m, method='try_from', impl=r'TryFrom<SolverConfig> for Runners'), ensures=try_from_post),
    ]
    for n in ('sat', 'unsat', 'timeout', 'other'):
        out.append(Contract('RunnerOut::is_' + n, dict(m, method='is_' + n, mod=r'^runner::runner::'), ensures=lambda cx, n=n: [('kind test', cx.zret == vr(cx.eng, peel(cx.tys[0]), n.capitalize(), cx.z(0)))]))
    return out


HOOKS = [flags_hook, tmp_hook, scope_hook, err_hook, hook]
NOTE = ('Contracts on the runners proved for all inputs: what each solver process did determines its answer (z3 and vampire tables), one round over an arbitrary '
        'sequence of solver answers (any order, any number), the retry loop for any number of rounds, the glue writing the problem before running the solver. '
        'Processes, channels and threads are assumed to behave as documented; the same statements run end to end against stand-in solvers.')
ASSUMPTIONS = ['std::thread::scope / mpsc channels deliver every message sent, in some order (the order is arbitrary in the proof)',
               'killall may succeed or fail arbitrarily (its body is not under contract)',
               'str::lines, str::trim, Path::is_file, ExitStatus::code, which::which are uninterpreted functions',
               'the answer of a solver thread is a function of the runner within one round',
               'the file given to the solver is the one written (file names are not tracked)']
