"""Models (assumed contracts) of standard-library and itertools functions."""
import re, copy
import z3
from engine import *
from engine import ctor_eq, is_num, num, is_int, int_range, outer
from mir import ty_str, Ty, parse_type, PRIMS, INT_BITS

M = {}


def model(*keys):
    def deco(f):
        for k in keys:
            M[k] = f
        return f
    return deco


def key_of(c):
    if c.kind == 'trait':
        return c.trait.split('::')[-1] + '.' + c.method
    if c.kind == 'inherent':
        t = peel_ref(c.self_ty)
        n = t[1].split('::')[-1] if t[0] in ('adt', 'prim') else ('slice' if t[0] in ('slice', 'array') else t[0])
        return n + '::' + c.method
    segs = c.path.split('::')
    return '::'.join(segs[-2:])


LAZY = ('map', 'filter', 'filter_map', 'flat_map', 'take', 'skip', 'zip', 'enumerate', 'chain', 'rev', 'cloned', 'copied', 'flatten', 'peekable', 'fuse', 'take_while', 'skip_while', 'zip_longest')


class Call:
    __slots__ = ('eng', 'st', 'c', 'args', 'atys', 'dty', 'caller', 'tenv')


def call(eng, st, c, args, atys, dty, caller, tenv):
    k = key_of(c)
    f = M.get(k)
    if f is None and c.kind == 'path':
        for pre in ('std::fmt::', 'std::panicking', 'log::'):
            if c.path.startswith(pre) or ('core::' + pre[5:]) in c.path:
                f = M.get('*' + pre)
    if f is None:
        return None
    if c.method in LAZY and c.kind == 'trait' and args and isinstance(args[0], MutRef) and atys[0] is not None and atys[0][0] == 'ref' and atys[0][1]:
        raise Unsupported('lazy adaptor %s over a borrowed iterator' % c.method)
    x = Call()
    x.eng, x.st, x.c, x.args, x.atys, x.dty, x.caller, x.tenv = eng, st, c, args, atys, dty, caller, tenv
    return f(x)


def ld(x, v):
    return x.eng.load(x.st, v) if isinstance(v, MutRef) else v


def one(x, v):
    return [(x.st, v)]


def zb(e):
    return Z(e, BOOL_TY)


def zi(e, t=USIZE):
    return Z(z3.IntVal(e) if isinstance(e, int) else e, t)


def inner_opt(t):
    p = peel(t) if t is not None else None
    if p is not None and p[0] == 'adt' and p[2]:
        return p[2][0]
    return None


def mk_some(v, t=None, dty=None):
    if dty is not None and peel(dty)[0] == 'adt' and peel(dty)[1] == 'std::option::Option':
        return Agg(peel(dty), 1, [v])
    return Agg(option_ty(t if t is not None else getattr(v, 'ty', None)), 1, [v])


def mk_none(t=None, dty=None):
    if dty is not None and peel(dty)[0] == 'adt' and peel(dty)[1] == 'std::option::Option':
        return Agg(peel(dty), 0, [])
    return Agg(option_ty(t), 0, [])


def cases(eng, st, v):
    """split an enum value: [(state, variant index, [fields])]"""
    if isinstance(v, MutRef):
        v = eng.load(st, v)
    if isinstance(v, Agg):
        return [(st, v.variant, v.fields)]
    if isinstance(v, Z):
        vs = eng.variants(eng.canon(v.ty))
        if vs is None:
            raise Unsupported('case split on opaque ' + ty_str(v.ty))
        out = []
        so = v.e.sort()
        for i, (n, fs) in enumerate(vs):
            c = so.recognizer(i)(v.e) if len(vs) > 1 else z3.BoolVal(True)
            l = []
            eng.fork(st, c, 0, l, ctor_eq(v.e, i))
            for s2, _ in l:
                out.append((s2, i, [eng.project(v, v.ty, n, j, ft, s2) for j, (_, ft) in enumerate(fs)]))
        return out
    raise Unsupported('case split on %r' % (v,))


def bools(eng, st, e):
    """[(state, True/False)]"""
    out = []
    l = []
    eng.fork(st, e, True, l)
    eng.fork(st, z3.Not(e), False, l)
    return l


# ---------------------------------------------------------------- identity-like
@model('Clone.clone', 'ToOwned.to_owned', 'Deref.deref', 'AsRef.as_ref', 'Borrow.borrow', 'Arc::clone', 'Rc::clone', 'Box::new', 'Arc::new', 'Rc::new',
       'Box::clone', 'Vec::as_slice', 'array::as_slice', 'slice::as_slice', 'Arc::as_ref', 'slice::to_vec', 'slice::into_vec', 'Vec::into_boxed_slice', 'Vec::as_ref', 'String::as_str', 'str::to_owned',
       'str::to_string', 'String::into_boxed_str', 'hint::must_use', 'convert::identity', 'Box::from', 'boxed::box_new', 'String::as_ref', 'str::as_ref', 'Box::as_ref', 'NonNull::as_ref', 'slice::as_ref', 'Path::new', 'Path::to_path_buf',
       'Option::cloned', 'Option::copied', 'Option::as_ref', 'Option::as_deref', 'Iterator.cloned', 'Iterator.copied', 'Iterator.by_ref', 'Iterator.fuse', 'String::from', 'str::into_string', 'Rc::as_ref', 'Box::into_inner', 'str::into_boxed_str', 'Cow::into_owned', 'Iterator.into_iter', 'PathBuf::as_path', 'Box::leak', 'Arc::unwrap_or_clone', 'boxed::box_assume_init_into_vec_unsafe')
def m_id(x):
    v = x.args[0]
    if isinstance(v, StaticRef):
        t = x.dty
        pt = peel(t)
        return one(x, Z(z3.Const('static<%s>' % v.path, x.eng.sort(pt)), pt))
    if x.c.method == 'by_ref':
        return one(x, v)
    v = ld(x, v)
    if x.c.method in ('to_owned', 'as_ref', 'borrow', 'deref') and isinstance(v, Z) and x.dty is not None:
        # only between types with the same representation
        if v.ty is not None and x.eng.sort(v.ty) != x.eng.sort(x.dty):
            if x.c.kind == 'trait' and x.c.method == 'as_ref' and x.c.self_ty[0] == 'ref':
                import copy
                c = copy.copy(x.c)
                c.self_ty = x.c.self_ty[2]
                at = [x.atys[0][2]] if x.atys[0] is not None and x.atys[0][0] == 'ref' else x.atys
                return x.eng.dispatch(x.st, c, x.args, at, x.dty, x.caller, x.tenv)
            return None
    return one(x, v)


@model('Box::new_uninit')
def m_new_uninit(x):
    cell = (next(x.eng.frames), 'heap')
    x.st.mem[cell] = Opq(None, 'uninit')
    return one(x, MutRef(cell, (), x.dty))


@model('DerefMut.deref_mut', 'AsMut.as_mut', 'Vec::as_mut_slice', 'BorrowMut.borrow_mut', 'Box::as_mut')
def m_mutid(x):
    return one(x, x.args[0])


@model('Into.into')
def m_into(x):
    a, b = x.atys[0], x.dty
    if a is not None and b is not None and a == b:
        return one(x, x.args[0])
    c = Callee()
    c.kind, c.self_ty, c.trait, c.targs, c.method, c.margs, c.path, c.tyargs = 'trait', b, 'std::convert::From', [a], 'from', [], None, []
    c.text = '<%s as From<%s>>::from' % (ty_str(b) if b else '?', ty_str(a) if a else '?')
    return x.eng.dispatch(x.st, c, x.args, x.atys, x.dty, x.caller, x.tenv)


@model('From.from')
def m_from(x):
    a, b = x.atys[0], x.dty
    v = ld(x, x.args[0])
    if a is not None and b is not None:
        if a == b:
            return one(x, v)
        pb = peel(b)
        if pb[0] == 'adt' and EXT_ALIAS.get(pb[1], pb[1]) == 'std::option::Option' and not (peel(a)[0] == 'adt' and peel(a)[1] == 'std::option::Option'):
            return one(x, mk_some(v, a, b))
        try:
            same = x.eng.sort(a) == x.eng.sort(b)
        except Unsupported:
            same = False
        if same:
            return one(x, v)
    if isinstance(v, (SeqV, It)) and b is not None and x.eng.canon(b)[0] == 'list':
        s = x.eng.as_seq(v)
        return one(x, s)
    return None


# ---------------------------------------------------------------- panics
@model('panicking::panic', 'panicking::panic_fmt', 'panicking::panic_explicit', 'panicking::unreachable_display', 'panicking::panic_display', 'rt::begin_panic', 'rt::panic_fmt', 'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed',
       'panicking::assert_failed', 'panicking::assert_failed_inner', 'panicking::panic_bounds_check', 'std::panic', 'rt::panic_display', 'panicking::panic_str_2015', 'panicking::panic_nounwind', 'panicking::panic_cannot_unwind', 'process::abort', 'panicking::begin_panic')
def m_panic(x):
    d = ''
    if x.args and isinstance(x.args[0], Z) and z3.is_string_value(x.args[0].e):
        d = x.args[0].e.as_string()[:60]
    x.eng.panic(x.st, '%s %s in %s' % (x.c.method, d, short(x.caller.name) if x.caller else '?'))
    return []


# ---------------------------------------------------------------- logging / formatting
@model('log::max_level', '*log::', '__private_api::loc', '__private_api::log', '__private_api::enabled', '__private_api::module_path')
def m_log(x):
    if x.dty == BOOL_TY:
        return one(x, zb(z3.BoolVal(False)))
    if x.dty == UNIT_TY:
        return one(x, UNIT)
    return one(x, Opq(x.dty, 'log'))


@model('Arguments::new', 'Argument::new_display', 'Argument::new_debug', 'Arguments::new_const', 'Arguments::new_v1', 'Arguments::from_str', 'Arguments::from_str_nonconst', 'Argument::none', '*std::fmt::', 'rt::Argument')
def m_fmt(x):
    if x.dty is not None and x.dty[0] == 'adt' and x.dty[1].endswith('Result'):
        return one(x, x.eng.fresh_val('fmt', x.dty, x.st))
    return one(x, Opq(x.dty, 'fmt'))


@model('fmt::format', 'ToString.to_string', 'alloc::fmt::format', 'str::join', 'Itertools.join', 'str::to_uppercase', 'str::to_lowercase', 'slice::join')
def m_format(x):
    if x.c.method == 'to_string' and x.atys[0] is not None:
        t = peel(x.atys[0])
        if t == STR_TY or (t[0] == 'adt' and t[1] in STRS):
            return one(x, ld(x, x.args[0]))
    return one(x, x.eng.fresh_val('string', STR_TY, x.st))


@model('PartialOrd.le', 'PartialOrd.lt', 'PartialOrd.ge', 'PartialOrd.gt')
def m_ord(x):
    t = peel(x.atys[0]) if x.atys[0] is not None else None
    if t is not None and t[0] == 'adt' and t[1].startswith('log::'):
        return one(x, zb(z3.BoolVal(False)))
    a, b = ld(x, x.args[0]), ld(x, x.args[1])
    if t is not None and t[0] == 'prim' and t[1] in INT_BITS:
        a, b = x.eng.z(a, t, x.st), x.eng.z(b, t, x.st)
        return one(x, zb({'le': a <= b, 'lt': a < b, 'ge': a >= b, 'gt': a > b}[x.c.method]))
    # through cmp
    c = Callee()
    c.kind, c.self_ty, c.trait, c.targs, c.method, c.margs, c.path, c.tyargs = 'trait', x.c.self_ty, 'std::cmp::PartialOrd', x.c.targs, 'partial_cmp', [], None, []
    c.text = '<.. as PartialOrd>::partial_cmp'
    ot = option_ty(Ty(('adt', 'std::cmp::Ordering', ())))
    outs = x.eng.dispatch(x.st, c, x.args, x.atys, ot, x.caller, x.tenv)
    res = []
    acc = {'le': (0, 1), 'lt': (0,), 'ge': (1, 2), 'gt': (2,)}[x.c.method]
    for s, v in outs:
        for s2, vi, fs in cases(x.eng, s, v):
            if vi == 0:
                res.append((s2, zb(z3.BoolVal(False))))
            else:
                for s3, oi, _ in cases(x.eng, s2, fs[0]):
                    res.append((s3, zb(z3.BoolVal(oi in acc))))
    return res


ORD_TY = Ty(('adt', 'std::cmp::Ordering', ()))


@model('Ord.cmp', 'PartialOrd.partial_cmp')
def m_cmp(x):
    t = peel(x.atys[0]) if x.atys[0] is not None else None
    a, b = ld(x, x.args[0]), ld(x, x.args[1])
    if t is not None and t[0] == 'prim' and t[1] in INT_BITS:
        a, b = x.eng.z(a, t, x.st), x.eng.z(b, t, x.st)
        out = []
        l = []
        x.eng.fork(x.st, a < b, 0, l)
        x.eng.fork(x.st, a == b, 1, l)
        x.eng.fork(x.st, a > b, 2, l)
        for s, i in l:
            v = Agg(ORD_TY, i, [])
            out.append((s, v if x.c.method == 'cmp' else mk_some(v, ORD_TY)))
        return out
    return None


@model('Ordering::reverse')
def m_rev_ord(x):
    return [(s, Agg(ORD_TY, 2 - i, [])) for s, i, _ in cases(x.eng, x.st, x.args[0])]


@model('Ordering::then', 'Ordering::then_with', 'Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne')
def m_ord_then(x):
    out = []
    for s, i, _ in cases(x.eng, x.st, x.args[0]):
        m = x.c.method
        if m == 'then':
            out.append((s, x.args[1] if i == 1 else Agg(ORD_TY, i, [])))
        elif m == 'then_with':
            if i == 1:
                out += x.eng.call_value(s, x.args[1], [], ORD_TY)
            else:
                out.append((s, Agg(ORD_TY, i, [])))
        else:
            out.append((s, zb(z3.BoolVal({'is_lt': i == 0, 'is_le': i <= 1, 'is_gt': i == 2, 'is_ge': i >= 1, 'is_eq': i == 1, 'is_ne': i != 1}[m]))))
    return out


@model('cmp::max', 'cmp::min', 'Ord.max', 'Ord.min')
def m_max(x):
    t = peel(x.atys[0] or x.dty)
    if t[0] == 'prim' and t[1] in INT_BITS:
        a, b = x.eng.z(ld(x, x.args[0]), t, x.st), x.eng.z(ld(x, x.args[1]), t, x.st)
        e = z3.If(a > b, a, b) if x.c.method == 'max' else z3.If(a <= b, a, b)
        return one(x, Z(e, t))
    return None


# ---------------------------------------------------------------- equality
def structural_eq(eng, t):
    """types whose == is equality of the modelled value"""
    c = eng.canon(t)
    if c[0] == 'prim':
        return True
    if c == UNIT_TY:
        return True
    if c[0] == 'adt' and c[1] == 'cryptovampire::container::reference::Reference':
        return True
    if c[0] == 'adt' and c[1] == 'std::cmp::Ordering':
        return True
    if c[0] == 'param':
        eng.assumptions.add('== on the type parameter %s is equality' % c[1])
        return True
    if c[0] == 'tuple':
        return all(structural_eq(eng, q) for q in c[1])
    if c[0] == 'list':
        return structural_eq(eng, c[1])
    if c[0] == 'adt' and c[1] in ('std::option::Option', 'std::result::Result'):
        return all(structural_eq(eng, q) for q in c[2])
    return False


@model('PartialEq.eq', 'PartialEq.ne')
def m_eq(x):
    outs = eq_vals(x.eng, x.st, x.args[0], x.args[1], x.atys[0] or x.atys[1], x.atys[1] or x.atys[0], x.caller, x.tenv)
    if outs is None:
        return None
    if x.c.method == 'ne':
        return [(s, zb(z3.simplify(z3.Not(x.eng.z(v, BOOL_TY, s))))) for s, v in outs]
    return outs


def eq_vals(eng, st, a, b, ta, tb, caller, tenv):
    if isinstance(a, MutRef):
        a = eng.load(st, a)
    if isinstance(b, MutRef):
        b = eng.load(st, b)
    t = peel(ta if ta is not None else tb)
    tb_ = peel(tb if tb is not None else ta)
    if t is None:
        return None
    if isinstance(a, Opq) or isinstance(b, Opq):
        return [(st, zb(eng.fresh('eq', z3.BoolSort())))]
    c = eng.canon(t)
    if structural_eq(eng, t) and eng.sort(t) == eng.sort(tb_):
        if c[0] == 'list' or isinstance(a, SeqV) or isinstance(b, SeqV):
            return list_eq_vals(eng, st, a, b, c)
        return [(st, zb(eng.z(a, t, st) == eng.z(b, t, st)))]
    if c[0] == 'adt' and c[1].split('::')[-1] in ('RichFormula', 'ARichFormula'):
        # derived structural equality of a recursive type: an uninterpreted reflexive function of the two values
        za, zb_ = eng.z(a, t, st), eng.z(b, t, st)
        f = z3.Function('formula_eq_' + str(za.sort()), za.sort(), za.sort(), z3.BoolSort())
        st.assume(z3.Implies(za == zb_, f(za, zb_)))
        return [(st, zb(f(za, zb_)))]
    if c[0] == 'adt' and EXT_ALIAS.get(c[1], c[1]) == 'std::option::Option':
        out = []
        for s, i, fs in cases(eng, st, a):
            for s2, j, gs in cases(eng, s, b):
                if i != j:
                    out.append((s2, zb(z3.BoolVal(False))))
                elif i == 0:
                    out.append((s2, zb(z3.BoolVal(True))))
                else:
                    r = eq_disp(eng, s2, fs[0], gs[0], c[2][0], c[2][0], caller, tenv)
                    out += r
        return out
    if c[0] == 'list':
        return list_eq_gen(eng, st, a, b, c, caller, tenv)
    if c[0] == 'tuple':
        acc = [(st, z3.BoolVal(True))]
        for i, et in enumerate(c[1]):
            nxt = []
            for s, e in acc:
                fa, fb = eng.project(a, t, None, i, et, s), eng.project(b, t, None, i, et, s)
                for s2, v in eq_disp(eng, s, fa, fb, et, et, caller, tenv):
                    nxt.append((s2, z3.And(e, eng.z(v, BOOL_TY, s2))))
            acc = nxt
        return [(s, zb(z3.simplify(e))) for s, e in acc]
    return eq_disp(eng, st, a, b, t, tb_, caller, tenv, top=True)


def eq_disp(eng, st, a, b, ta, tb, caller, tenv, top=False):
    c = Callee()
    c.kind, c.self_ty, c.trait, c.targs, c.method, c.margs, c.path, c.tyargs = 'trait', peel(ta), 'std::cmp::PartialEq', [], 'eq', [], None, []
    c.text = '<%s as PartialEq>::eq' % ty_str(ta)
    at = [Ty(('ref', False, peel(ta))), Ty(('ref', False, peel(tb)))]
    cands = eng.prog.candidates(eng, c, at, BOOL_TY)
    if len(cands) == 1:
        return eng.run_fn(cands[0][0], [a, b], st, cands[0][1], at)
    if top:
        return None
    r = eq_vals(eng, st, a, b, ta, tb, caller, tenv)
    if r is None:
        raise Unsupported('equality on ' + ty_str(ta))
    return r


def eq_expr(x, et):
    """== on the elements of a list as a function of two terms"""
    eng, st = x.eng, x.st
    if structural_eq(eng, et):
        return lambda a, b: a == b
    t = peel(et)
    A, B = z3.Const('ua!%d' % next(eng.cnt), eng.sort(t)), z3.Const('ub!%d' % next(eng.cnt), eng.sort(t))
    s1 = st.copy()
    n0 = len(s1.pc)
    outs = eq_disp(eng, s1, Z(A, t), Z(B, t), et, et, x.caller, x.tenv)
    if len(outs) != 1 or len(outs[0][0].pc) != n0:
        return None
    e = eng.z(outs[0][1], BOOL_TY, outs[0][0])
    return lambda a, b: z3.substitute(e, (A, a), (B, b))


def list_eq_vals(eng, st, a, b, c):
    """structural equality of lists as a fork with witnesses"""
    sa, sb = eng.as_seq(a, st), eng.as_seq(b, st)
    et = c[1] if c[0] == 'list' else sa.elt
    l = []
    eng.fork(st, sa.len == sb.len, True, l)
    eng.fork(st, sa.len != sb.len, False, l)
    out = []
    for s, same in l:
        if not same:
            out.append((s, zb(z3.BoolVal(False))))
            continue
        if sa.conc is not None and sb.conc is not None:
            out.append((s, zb(z3.And([eng.z(p, et, s) == eng.z(q, et, s) for p, q in zip(sa.conc, sb.conc)] or [z3.BoolVal(True)]))))
            continue
        i = z3.Int('i!%d' % next(eng.cnt))
        s1 = s.copy()
        sub = State()
        body = eng.z(sa.at(i), et, sub) == eng.z(sb.at(i), et, sub)
        s1.branch(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < sa.len), body)))
        out.append((s1, zb(z3.BoolVal(True))))
        k = eng.fresh('neq', z3.IntSort())
        s2 = s.copy()
        s2.branch(z3.And(k >= 0, k < sa.len, eng.z(sa.at(k), et, s2) != eng.z(sb.at(k), et, s2)))
        if eng.feasible(s2):
            out.append((s2, zb(z3.BoolVal(False))))
    return out


def list_eq_gen(eng, st, a, b, c, caller, tenv):
    sa, sb = eng.as_seq(a, st), eng.as_seq(b, st)
    et = c[1]
    l = []
    eng.fork(st, sa.len == sb.len, True, l)
    eng.fork(st, sa.len != sb.len, False, l)
    out = []
    for s, same in l:
        if not same:
            out.append((s, zb(z3.BoolVal(False))))
            continue
        def body(s2, k):
            return eq_disp(eng, s2, sa.at(k), sb.at(k), et, et, caller, tenv)
        out += quant_fork(eng, s, sa.len, body, want_all=True)
    return out


def quant_fork(eng, st, n, body, want_all):
    """fork on `for all k<n: body(k)` (want_all) or `exists` -> [(state, bool Value)]"""
    L = eng.lam(st, n, body)
    val = L.value(BOOL_TY)
    P = lambda i: eng.z(val(i), BOOL_TY)
    i = z3.Int('i!%d' % next(eng.cnt))
    rng = lambda j: z3.And(j >= 0, j < n)
    out = []
    # facts hold for every index
    st = st.copy()
    f = L.facts(i)
    if not z3.is_true(f):
        st.assume(z3.ForAll([i], z3.Implies(rng(i), f)))
    good = (lambda j: P(j)) if want_all else (lambda j: z3.Not(P(j)))
    s1 = st.copy()
    s1.branch(z3.ForAll([i], z3.Implies(rng(i), good(i))))
    if eng.feasible(s1):
        out.append((s1, zb(z3.BoolVal(want_all))))
    k = eng.fresh('wit', z3.IntSort())
    s2 = st.copy()
    s2.branch(z3.And(rng(k), z3.Not(good(k))))
    if eng.feasible(s2):
        out.append((s2, zb(z3.BoolVal(not want_all))))
    return out


# ---------------------------------------------------------------- Option / Result
def is_ctor(x):
    return x


@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_is(x):
    v = ld(x, x.args[0])
    want = {'is_some': 1, 'is_none': 0, 'is_ok': 0, 'is_err': 1}[x.c.method]
    if isinstance(v, Agg):
        return one(x, zb(z3.BoolVal(v.variant == want)))
    return one(x, zb(v.e.sort().recognizer(want)(v.e)))


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err', 'Option::unwrap_unchecked')
def m_unwrap(x):
    okv = {'Option': 1, 'Result': 0}[x.c.path.split('::')[-2]]
    if x.c.method == 'unwrap_err':
        okv = 1
    out = []
    for s, i, fs in cases(x.eng, x.st, x.args[0]):
        if i == okv:
            out.append((s, fs[0]))
        else:
            x.eng.panic(s, '%s in %s' % (x.c.method, short(x.caller.name) if x.caller else '?'))
    return out


@model('Option::unwrap_or', 'Result::unwrap_or', 'Option::unwrap_or_else', 'Result::unwrap_or_else', 'Option::unwrap_or_default', 'Result::unwrap_or_default')
def m_unwrap_or(x):
    okv = {'Option': 1, 'Result': 0}[x.c.path.split('::')[-2]]
    out = []
    for s, i, fs in cases(x.eng, x.st, x.args[0]):
        if i == okv:
            out.append((s, fs[0]))
        elif x.c.method == 'unwrap_or':
            out.append((s, x.args[1]))
        elif x.c.method == 'unwrap_or_default':
            out.append((s, default_val(x.eng, x.dty)))
        else:
            out += x.eng.call_value(s, x.args[1], fs, x.dty)
    return out


def default_val(eng, t):
    c = eng.canon(t)
    if c[0] == 'prim':
        if c[1] == 'bool':
            return zb(z3.BoolVal(False))
        if c[1] == 'str':
            return Z(z3.StringVal(''), STR_TY)
        return Z(z3.IntVal(0), t)
    if c[0] == 'list':
        return eng.conc_seq([], c[1])
    if c[0] == 'adt' and c[1] == 'std::option::Option':
        return mk_none(dty=t)
    if c == UNIT_TY:
        return UNIT
    raise Unsupported('Default of ' + ty_str(t))


@model('Default.default')
def m_default(x):
    try:
        return one(x, default_val(x.eng, x.dty))
    except Unsupported:
        return None


def res_ty(t, i):
    p = peel(t)
    return p[2][i]


@model('Option::map', 'Option::and_then', 'Option::filter', 'Option::is_some_and', 'Option::is_none_or', 'Option::map_or', 'Option::map_or_else', 'Option::or', 'Option::or_else', 'Option::and', 'Option::xor',
       'Option::ok_or', 'Option::ok_or_else', 'Option::zip', 'Option::flatten', 'Option::inspect')
def m_opt(x):
    m = x.c.method
    eng = x.eng
    out = []
    for s, i, fs in cases(eng, x.st, x.args[0]):
        if m == 'map':
            if i == 0:
                out.append((s, mk_none(dty=x.dty)))
            else:
                for s2, v in eng.call_value(s, x.args[1], fs, inner_opt(x.dty)):
                    out.append((s2, mk_some(v, dty=x.dty)))
        elif m == 'and_then':
            if i == 0:
                out.append((s, mk_none(dty=x.dty)))
            else:
                out += eng.call_value(s, x.args[1], fs, x.dty)
        elif m == 'filter':
            if i == 0:
                out.append((s, mk_none(dty=x.dty)))
            else:
                for s2, v in eng.call_value(s, x.args[1], fs, BOOL_TY):
                    for s3, b in bools(eng, s2, eng.z(v, BOOL_TY, s2)):
                        out.append((s3, mk_some(fs[0], dty=x.dty) if b else mk_none(dty=x.dty)))
        elif m in ('is_some_and', 'is_none_or'):
            if i == 0:
                out.append((s, zb(z3.BoolVal(m == 'is_none_or'))))
            else:
                out += eng.call_value(s, x.args[1], fs, BOOL_TY)
        elif m == 'map_or':
            if i == 0:
                out.append((s, x.args[1]))
            else:
                out += eng.call_value(s, x.args[2], fs, x.dty)
        elif m == 'map_or_else':
            if i == 0:
                out += eng.call_value(s, x.args[1], [], x.dty)
            else:
                out += eng.call_value(s, x.args[2], fs, x.dty)
        elif m == 'or':
            out.append((s, x.args[1] if i == 0 else mk_some(fs[0], dty=x.dty)))
        elif m == 'or_else':
            if i == 0:
                out += eng.call_value(s, x.args[1], [], x.dty)
            else:
                out.append((s, mk_some(fs[0], dty=x.dty)))
        elif m == 'and':
            out.append((s, x.args[1] if i == 1 else mk_none(dty=x.dty)))
        elif m == 'ok_or':
            out.append((s, Agg(peel(x.dty), 0, [fs[0]]) if i == 1 else Agg(peel(x.dty), 1, [x.args[1]])))
        elif m == 'ok_or_else':
            if i == 1:
                out.append((s, Agg(peel(x.dty), 0, [fs[0]])))
            else:
                for s2, v in eng.call_value(s, x.args[1], [], res_ty(x.dty, 1)):
                    out.append((s2, Agg(peel(x.dty), 1, [v])))
        elif m == 'flatten':
            out.append((s, fs[0] if i == 1 else mk_none(dty=x.dty)))
        elif m == 'zip':
            for s2, j, gs in cases(eng, s, x.args[1]):
                if i == 1 and j == 1:
                    tt = inner_opt(x.dty)
                    out.append((s2, mk_some(Agg(tt, 0, [fs[0], gs[0]]), dty=x.dty)))
                else:
                    out.append((s2, mk_none(dty=x.dty)))
        else:
            return None
    return out


@model('Option::take', 'Option::replace', 'Option::insert', 'Option::get_or_insert_with', 'mem::take', 'mem::replace', 'mem::swap')
def m_take(x):
    r = x.args[0]
    if not isinstance(r, MutRef):
        return None
    eng = x.eng
    m = x.c.method
    old = eng.load(x.st, r)
    if m == 'take':
        if x.c.path.endswith('Option::take'):
            eng.store(x.st, r, mk_none(dty=x.dty))
        else:
            c = Callee()
            c.kind, c.self_ty, c.trait, c.targs, c.method, c.margs, c.path, c.tyargs = 'trait', x.dty, 'std::default::Default', [], 'default', [], None, []
            c.text = 'Default::default'
            outs = eng.dispatch(x.st, c, [], [], x.dty, x.caller, x.tenv)
            for s, v in outs:
                eng.store(s, r, v)
            return [(s, old) for s, v in outs]
        return one(x, old)
    if m == 'replace':
        v = x.args[1]
        if x.c.path.endswith('Option::replace'):
            v = mk_some(v, dty=x.dty)
        eng.store(x.st, r, v)
        return one(x, old)
    if m == 'swap':
        o2 = eng.load(x.st, x.args[1])
        eng.store(x.st, r, o2)
        eng.store(x.st, x.args[1], old)
        return one(x, UNIT)
    return None


@model('Option::as_mut', 'Option::as_deref_mut')
def m_as_mut(x):
    r = x.args[0]
    if not isinstance(r, MutRef):
        return None
    out = []
    for s, i, fs in cases(x.eng, x.st, r):
        if i == 0:
            out.append((s, mk_none(dty=x.dty)))
        else:
            out.append((s, mk_some(MutRef(r.cell, tuple(r.projs) + (('variant', 'Some'), ('field', 0, None)), None), dty=x.dty)))
    return out


@model('Result::map', 'Result::map_err', 'Result::and_then', 'Result::ok', 'Result::err', 'Result::or_else', 'Result::is_ok_and', 'Result::as_ref', 'Result::unwrap_or_else2', 'Result::map_or', 'Result::cloned', 'Result::copied')
def m_res(x):
    m = x.c.method
    eng = x.eng
    out = []
    if m in ('as_ref', 'cloned', 'copied'):
        return one(x, ld(x, x.args[0]))
    for s, i, fs in cases(eng, x.st, x.args[0]):
        d = peel(x.dty)
        if m == 'map':
            if i == 0:
                for s2, v in eng.call_value(s, x.args[1], fs, d[2][0]):
                    out.append((s2, Agg(d, 0, [v])))
            else:
                out.append((s, Agg(d, 1, fs)))
        elif m == 'map_err':
            if i == 1:
                for s2, v in eng.call_value(s, x.args[1], fs, d[2][1]):
                    out.append((s2, Agg(d, 1, [v])))
            else:
                out.append((s, Agg(d, 0, fs)))
        elif m == 'and_then':
            if i == 0:
                out += eng.call_value(s, x.args[1], fs, x.dty)
            else:
                out.append((s, Agg(d, 1, fs)))
        elif m == 'or_else':
            if i == 1:
                out += eng.call_value(s, x.args[1], fs, x.dty)
            else:
                out.append((s, Agg(d, 0, fs)))
        elif m == 'ok':
            out.append((s, mk_some(fs[0], dty=d) if i == 0 else mk_none(dty=d)))
        elif m == 'err':
            out.append((s, mk_some(fs[0], dty=d) if i == 1 else mk_none(dty=d)))
        elif m == 'is_ok_and':
            if i == 0:
                out += eng.call_value(s, x.args[1], fs, BOOL_TY)
            else:
                out.append((s, zb(z3.BoolVal(False))))
        elif m == 'map_or':
            if i == 0:
                out += eng.call_value(s, x.args[2], fs, x.dty)
            else:
                out.append((s, x.args[1]))
        else:
            return None
    return out


@model('Try.branch')
def m_branch(x):
    out = []
    p = peel(x.atys[0])
    isopt = EXT_ALIAS.get(p[1], p[1]) == 'std::option::Option'
    d = peel(x.dty)
    for s, i, fs in cases(x.eng, x.st, x.args[0]):
        good = (i == 1) if isopt else (i == 0)
        if good:
            out.append((s, Agg(d, 0, [fs[0]])))
        else:
            # residual carries the error only
            rt = d[2][0]
            out.append((s, Agg(d, 1, [Agg(peel(rt), i, fs)])))
    return out


@model('FromResidual.from_residual')
def m_resid(x):
    v = ld(x, x.args[0])
    d = peel(x.dty)
    if d[1] == 'std::option::Option':
        return one(x, mk_none(dty=x.dty))
    out = []
    for s, i, fs in cases(x.eng, x.st, v):
        if i == 0:
            continue
        et = peel(x.atys[0])[2][1] if x.atys[0] is not None and len(peel(x.atys[0])[2]) > 1 else getattr(fs[0], 'ty', None)
        dt = d[2][1]
        if et is None or et == dt:
            out.append((s, Agg(d, 1, fs)))
        else:
            c = Callee()
            c.kind, c.self_ty, c.trait, c.targs, c.method, c.margs, c.path, c.tyargs = 'trait', dt, 'std::convert::From', [et], 'from', [], None, []
            c.text = 'From::from (?)'
            for s2, v2 in x.eng.dispatch(s, c, fs, [et], dt, x.caller, x.tenv):
                out.append((s2, Agg(d, 1, [v2])))
    return out


@model('Try.from_output')
def m_fromout(x):
    d = peel(x.dty)
    if d[1] == 'std::option::Option':
        return one(x, mk_some(x.args[0], dty=x.dty))
    return one(x, Agg(d, 0, [x.args[0]]))


@model('bool::then', 'bool::then_some')
def m_then(x):
    out = []
    for s, b in bools(x.eng, x.st, x.eng.z(ld(x, x.args[0]), BOOL_TY, x.st)):
        if not b:
            out.append((s, mk_none(dty=x.dty)))
        elif x.c.method == 'then_some':
            out.append((s, mk_some(x.args[1], dty=x.dty)))
        else:
            for s2, v in x.eng.call_value(s, x.args[1], [], inner_opt(x.dty)):
                out.append((s2, mk_some(v, dty=x.dty)))
    return out


# ---------------------------------------------------------------- callables
@model('FnOnce.call_once', 'FnMut.call_mut', 'Fn.call')
def m_call(x):
    f = x.args[0]
    a = x.args[1]
    if isinstance(a, MutRef):
        a = x.eng.load(x.st, a)
    if isinstance(a, Agg):
        args = a.fields
    else:
        t = peel(x.atys[1])
        args = [x.eng.project(a, t, None, i, q, x.st) for i, q in enumerate(t[1])]
    at = None
    if x.atys[1] is not None and peel(x.atys[1])[0] == 'tuple':
        at = list(peel(x.atys[1])[1])
    return x.eng.call_value(x.st, f, args, x.dty, at)


# ---------------------------------------------------------------- arithmetic traits
@model('Add.add', 'Sub.sub', 'Mul.mul')
def m_arith(x):
    t = peel(x.dty)
    if t[0] != 'prim':
        return None
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[x.c.method]
    return one(x, x.eng.binop(None, x.st, op, ld(x, x.args[0]), ld(x, x.args[1]), t))


@model('AddAssign.add_assign', 'SubAssign.sub_assign')
def m_arith_assign(x):
    v = x.eng.load(x.st, x.args[0])
    t = peel(x.atys[1])
    if t[0] != 'prim':
        return None
    r = x.eng.binop(None, x.st, 'Add' if x.c.method == 'add_assign' else 'Sub', v, ld(x, x.args[1]), t)
    x.eng.store(x.st, x.args[0], r)
    return one(x, UNIT)


@model('TryFrom.try_from', 'TryInto.try_into')
def m_try_from(x):
    a = peel(x.atys[0]) if x.atys[0] is not None else None
    d = peel(x.dty)
    b = peel(d[2][0])
    if a is None or a[0] != 'prim' or b[0] != 'prim' or a[1] not in INT_BITS or b[1] not in INT_BITS:
        if x.c.method == 'try_into':
            c = Callee()
            c.kind, c.self_ty, c.trait, c.targs, c.method, c.margs, c.path, c.tyargs = 'trait', d[2][0], 'std::convert::TryFrom', [x.atys[0]], 'try_from', [], None, []
            c.text = '<%s as TryFrom>::try_from' % ty_str(d[2][0])
            return x.eng.dispatch(x.st, c, x.args, x.atys, x.dty, x.caller, x.tenv)
        return None
    e = x.eng.z(ld(x, x.args[0]), a, x.st)
    lo, hi = int_range(b[1])
    out = []
    for s, ok in bools(x.eng, x.st, z3.And(e >= lo, e <= hi)):
        if ok:
            out.append((s, Agg(d, 0, [Z(e, b)])))
        else:
            out.append((s, Agg(d, 1, [x.eng.fresh_val('err', d[2][1], s)])))
    return out


for _n in INT_BITS:
    pass


@model(*['%s::%s' % (n, m) for n in INT_BITS for m in ('saturating_sub', 'saturating_add', 'checked_add', 'checked_sub', 'wrapping_add', 'wrapping_sub', 'max', 'min')])
def m_int(x):
    t = peel(x.atys[0])
    lo, hi = int_range(t[1])
    a, b = x.eng.z(ld(x, x.args[0]), t, x.st), x.eng.z(ld(x, x.args[1]), t, x.st)
    m = x.c.method
    e = a + b if m.endswith('add') else a - b
    if m.startswith('saturating'):
        return one(x, Z(z3.If(e > hi, z3.IntVal(hi), z3.If(e < lo, z3.IntVal(lo), e)), t))
    if m.startswith('wrapping'):
        return one(x, Z(x.eng.wrap(e, t), t))
    if m.startswith('checked'):
        return [(s, mk_some(Z(e, t), dty=x.dty) if ok else mk_none(dty=x.dty)) for s, ok in bools(x.eng, x.st, z3.And(e >= lo, e <= hi))]
    return None


# ---------------------------------------------------------------- sequences
def elt_of(t):
    if t is None:
        return None
    p = peel(t)
    if p[0] in ('slice', 'array'):
        return p[1]
    if p[0] == 'adt' and p[1] in LISTS:
        return p[2][0]
    return None


def as_iter(eng, st, v, ty=None):
    """-> It for anything iterable without forking"""
    if isinstance(v, MutRef):
        return as_iter(eng, st, eng.load(st, v), ty)
    if isinstance(v, It):
        return v
    if isinstance(v, SeqV):
        return It(v)
    if isinstance(v, Agg) and v.ty[0] == 'adt':
        p = EXT_ALIAS.get(v.ty[1], v.ty[1])
        if p == 'std::ops::Range':
            lo, hi = eng.z(v.fields[0], None, st), eng.z(v.fields[1], None, st)
            et = v.fields[0].ty
            n = z3.simplify(z3.If(hi >= lo, hi - lo, z3.IntVal(0)))
            conc = None
            if is_num(n) and num(n) <= 24 and is_num(lo):
                return It(eng.conc_seq([Z(z3.IntVal(num(lo) + j), et) for j in range(num(n))], et))
            return It(SeqV(n, lambda i: Z(lo + i, et), et))
        if p == 'std::ops::RangeFrom':
            lo = eng.z(v.fields[0], None, st)
            et = v.fields[0].ty
            inf = eng.fresh('inf', z3.IntSort())
            st.assume(inf >= (1 << 64))
            return It(SeqV(inf, lambda i: Z(lo + i, et), et))
        if p == 'std::option::Option':
            if v.variant == 0:
                return It(eng.conc_seq([], v.ty[2][0]))
            return It(eng.conc_seq([v.fields[0]], v.ty[2][0]))
        if p in ('either::Either',):
            return as_iter(eng, st, v.fields[0])
        for vf in eng.views:
            s = vf(eng, st, v, v.ty)
            if s is not None:
                return It(s)
    if isinstance(v, FnItem) and repr(v).startswith('FnItem(std::iter::Empty::<'):
        return It(eng.conc_seq([], None))
    if isinstance(v, Z):
        c = eng.canon(v.ty)
        if c[0] == 'list':
            return It(eng.as_seq(v, st))
        for vf in eng.views:
            s = vf(eng, st, v, v.ty)
            if s is not None:
                return It(s)
        if c[0] == 'adt' and c[1] == 'std::option::Option':
            so = v.e.sort()
            et = c[2][0]
            e = v.e
            return It(SeqV(z3.If(so.recognizer(1)(e), z3.IntVal(1), z3.IntVal(0)), lambda i: Z(so.accessor(1, 0)(e), et), et))
    raise Unsupported('not iterable: %r : %s' % (v, ty_str(ty) if ty else '?'))


@model('IntoIterator.into_iter', 'slice::iter', 'Vec::iter', 'VecDeque::iter', 'Option::into_iter', 'Option::iter', 'slice::into_iter', 'Vec::into_iter', 'VecDeque::into_iter', 'array::into_iter', 'Vec::drain')
def m_into_iter(x):
    a = x.args[0]
    if isinstance(a, MutRef):
        v = x.eng.load(x.st, a)
        if isinstance(v, It):
            return one(x, a)     # &mut I as iterator
        if x.c.method == 'drain':
            it = as_iter(x.eng, x.st, v, x.atys[0])
            x.eng.store(x.st, a, x.eng.conc_seq([], it.seq.elt))
            return one(x, it)
        if peel_ref(x.atys[0]) is not None and x.atys[0][0] == 'ref' and x.atys[0][1] and x.c.method != 'iter':
            return m_iter_mut(x)
        a = v
    if isinstance(a, PyFn):
        return None
    return one(x, as_iter(x.eng, x.st, a, x.atys[0]))


@model('RangeInclusive::new', 'RangeInclusive::contains')
def m_rangeincl(x):
    eng = x.eng
    if x.c.method == 'contains':
        it = ld(x, x.args[0])
        e = eng.z(ld(x, x.args[1]), peel_ref(x.atys[1]), x.st)
        lo, hi = it.bounds
        return one(x, zb(z3.And(e >= lo, e <= hi)))
    lo, hi = eng.z(x.args[0], x.atys[0], x.st), eng.z(x.args[1], x.atys[1], x.st)
    et = peel_ref(x.atys[0])
    if lo.sort() != z3.IntSort():
        return one(x, Agg(x.dty, 0, [Z(lo, et), Z(hi, et)]))
    n = z3.simplify(z3.If(hi >= lo, hi - lo + 1, z3.IntVal(0)))
    if is_num(n) and num(n) <= 24 and is_num(lo):
        it = It(eng.conc_seq([Z(z3.IntVal(num(lo) + j), et) for j in range(num(n))], et))
    else:
        it = It(SeqV(n, lambda i: Z(lo + i, et), et))
    it.bounds = (lo, hi)
    return one(x, it)


@model('slice::iter_mut', 'Vec::iter_mut')
def m_iter_mut(x):
    r = x.args[0]
    s = x.eng.as_seq(r, x.st)
    et = s.elt
    return one(x, It(SeqV(s.len, lambda i: MutRef(r.cell, tuple(r.projs) + (('elem', i),), et), et, conc=[MutRef(r.cell, tuple(r.projs) + (('elem', z3.IntVal(j)),), et) for j in range(len(s.conc))] if s.conc is not None else None)))


@model('iter::once', 'iter::empty', 'iter::repeat', 'Iterator.sum')
def m_once(x):
    m = x.c.method
    if m == 'once':
        return one(x, It(x.eng.conc_seq([x.args[0]], x.atys[0])))
    if m == 'empty':
        return one(x, It(x.eng.conc_seq([], None)))
    if m == 'repeat':
        inf = x.eng.fresh('inf', z3.IntSort())
        x.st.assume(inf >= (1 << 64))
        v = x.args[0]
        return one(x, It(SeqV(inf, lambda i: v, x.atys[0])))
    return None


def rest(eng, st, v, ty=None, eff=False):
    """remaining sequence of an iterator value (fresh start at 0)"""
    it = as_iter(eng, st, v, ty)
    s = it.seq
    if s.eff is not None and not eff:
        raise Unsupported('consuming a sequence computed with side effects')
    lo = it.lo
    hi = it.hi
    if is_int(lo, 0) and (hi is s.len or (is_num(hi) and is_num(s.len) and num(hi) == num(s.len))):
        return s
    if s.conc is not None and is_num(lo) and is_num(hi):
        return eng.conc_seq(s.conc[num(lo):num(hi)], s.elt)
    at = s.at
    return SeqV(z3.simplify(hi - lo), (lambda i: at(i + lo)), s.elt)


def exhaust(eng, st, v):
    """a by-reference iterator is consumed"""
    if isinstance(v, MutRef):
        it = eng.load(st, v)
        if isinstance(it, It):
            eng.store(st, v, It(it.seq, it.hi, it.hi, it.peekable))
        else:
            raise Unsupported('consuming a by-reference repository iterator')


def map_seq(eng, st, seq, f, elt, atys=None):
    """-> [(state, SeqV)]"""
    if seq.conc is not None:
        acc = [(st, [])]
        for v in seq.conc:
            nxt = []
            for s, l in acc:
                for s2, r in eng.call_value(s, f, [v], elt):
                    nxt.append((s2, l + [r]))
            acc = nxt
        return [(s, eng.conc_seq(l, elt)) for s, l in acc]
    if seq.parts is not None:
        acc = [(st, eng.conc_seq([], elt))]
        for p in seq.parts:
            acc = [(s3, concat(eng, a, b)) for s2, a in acc for s3, b in map_seq(eng, s2, p, f, elt, atys)]
        return acc
    if seq.flat is not None and not eng.scopes:
        def body(s2, k):
            out = []
            for g, v in seq.flat.alts(k):
                s3 = s2.copy()
                s3.branch(g)
                out += map_seq(eng, s3, v, f, elt, atys)
            return out
        L = eng.lam(st, seq.flat.outer.len, body)
        if L.alts:
            return [(st, flat_seq(eng, st, L, seq.flat.outer, seq, elt))]
    L = eng.lam(st, seq.len, lambda s2, k: eng.call_value(s2, f, [seq.at(k)], elt))
    if not L.alts:
        # the closure never returns: empty sequence only
        st2 = st.copy()
        st2.branch(seq.len == 0)
        return [(st2, eng.conc_seq([], elt))] if eng.feasible(st2) else []
    if elt is None:
        elt = getattr(L.alts[0][2], 'ty', None)
    val = L.value(elt)
    i = z3.Int('i!%d' % next(eng.cnt))
    f_ = L.facts(i)
    if not z3.is_true(f_):
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < seq.len), f_)))
    return [(st, SeqV(seq.len, val, elt))]


def margT(x, i):
    return x.c.margs[i] if len(x.c.margs) > i else None


@model('Iterator.map', 'Itertools.map_into', 'array::map', 'Iterator.inspect', 'slice::map')
def m_map(x):
    eng = x.eng
    s = rest(eng, x.st, x.args[0], x.atys[0])
    if x.c.method == 'inspect':
        return one(x, It(s))
    if x.c.method == 'map_into':
        t = margT(x, 0)
        src = s.elt
        def conv(e, st, args, dty):
            c = Callee()
            c.kind, c.self_ty, c.trait, c.targs, c.method, c.margs, c.path, c.tyargs = 'trait', src, 'std::convert::Into', [t], 'into', [], None, []
            c.text = 'Into::into'
            return e.dispatch(st, c, args, [src if src is not None else getattr(args[0], 'ty', None)], t, x.caller, x.tenv)
        f = PyFn(conv)
        elt = t
    else:
        f = x.args[1]
        elt = margT(x, 0)
        if x.c.self_ty is not None and x.c.kind != 'trait':
            elt = margT(x, 1) or margT(x, 0)
        if x.c.kind != 'trait':
            elt = elt_of(x.dty)
            return [(s2, q) for s2, q in map_seq(eng, x.st, s, f, elt)]
    try:
        return [(s2, It(q)) for s2, q in map_seq(eng, x.st, s, f, elt)]
    except Effects:
        if eng.verifying is None or eng.verifying.folds is None:
            raise

        def at(i):
            raise Unsupported('element of a sequence computed with side effects')
        q = SeqV(s.len, at, elt)
        q.eff = (s, f)
        return one(x, It(q))


@model('Iterator.enumerate')
def m_enum(x):
    s = rest(x.eng, x.st, x.args[0], x.atys[0])
    t = Ty(('tuple', (USIZE, s.elt)))
    mk = lambda i, v: Agg(t, 0, [zi(i), v])
    if s.conc is not None:
        return one(x, It(x.eng.conc_seq([mk(j, v) for j, v in enumerate(s.conc)], t)))
    return one(x, It(SeqV(s.len, lambda i: mk(i, s.at(i)), t)))


@model('Iterator.zip', 'Itertools.zip_eq', 'iter::zip')
def m_zip(x):
    eng = x.eng
    a = rest(eng, x.st, x.args[0], x.atys[0])
    b = rest(eng, x.st, x.args[1], x.atys[1])
    t = Ty(('tuple', (a.elt, b.elt)))
    n = z3.simplify(z3.If(a.len <= b.len, a.len, b.len))
    if x.c.method == 'zip_eq':
        eqc = z3.simplify(a.len == b.len)
        if not z3.is_true(eqc):
            bad = x.st.copy()
            bad.branch(z3.Not(eqc))
            if eng.feasible(bad):
                eng.panic(bad, 'zip_eq of different lengths in ' + short(x.caller.name))
            x.st.branch(eqc)
        n = a.len
    if a.conc is not None and b.conc is not None:
        return one(x, It(eng.conc_seq([Agg(t, 0, [p, q]) for p, q in zip(a.conc, b.conc)], t)))
    if (a.conc is not None or b.conc is not None) and is_num(n):
        return one(x, It(eng.conc_seq([Agg(t, 0, [a.at(z3.IntVal(j)), b.at(z3.IntVal(j))]) for j in range(num(n))], t)))
    return one(x, It(SeqV(n, lambda i: Agg(t, 0, [a.at(i), b.at(i)]), t)))


@model('Itertools.tuple_windows')
def m_tuple_windows(x):
    a = rest(x.eng, x.st, x.args[0], x.atys[0])
    t = margT(x, 0)
    if t is None or t[0] != 'tuple' or len(t[1]) != 2:
        raise Unsupported('tuple_windows of other than pairs')
    if a.conc is not None:
        return one(x, It(x.eng.conc_seq([Agg(t, 0, [p, q]) for p, q in zip(a.conc, a.conc[1:])], t)))
    return one(x, It(SeqV(z3.simplify(z3.If(a.len >= 1, a.len - 1, z3.IntVal(0))), lambda i: Agg(t, 0, [a.at(i), a.at(i + 1)]), t)))


@model('Itertools.zip_longest')
def m_zip_longest(x):
    eng = x.eng
    a = rest(eng, x.st, x.args[0], x.atys[0])
    b = rest(eng, x.st, x.args[1], x.atys[1])
    t = Ty(('adt', 'itertools::EitherOrBoth', (a.elt, b.elt)))
    n = z3.simplify(z3.If(a.len >= b.len, a.len, b.len))
    if a.conc is not None and b.conc is not None:
        l = []
        for j in range(max(len(a.conc), len(b.conc))):
            if j < len(a.conc) and j < len(b.conc):
                l.append(Agg(t, 0, [a.conc[j], b.conc[j]]))
            elif j < len(a.conc):
                l.append(Agg(t, 1, [a.conc[j]]))
            else:
                l.append(Agg(t, 2, [b.conc[j]]))
        return one(x, It(eng.conc_seq(l, t)))

    def at(i):
        c = eng.sort(t)
        za, zb_ = eng.z(a.at(i), a.elt), eng.z(b.at(i), b.elt)
        return Z(z3.If(z3.And(i < a.len, i < b.len), c.constructor(0)(za, zb_), z3.If(i < a.len, c.constructor(1)(za), c.constructor(2)(zb_))), t)
    return one(x, It(SeqV(n, at, t)))


@model('Iterator.rev')
def m_rev(x):
    s = rest(x.eng, x.st, x.args[0], x.atys[0])
    if s.conc is not None:
        return one(x, It(x.eng.conc_seq(list(reversed(s.conc)), s.elt)))
    return one(x, It(SeqV(s.len, lambda i: s.at(s.len - 1 - i), s.elt)))


def concat(eng, a, b):
    if a.conc is not None and b.conc is not None:
        return eng.conc_seq(a.conc + b.conc, a.elt if a.elt is not None else b.elt)
    if a.conc is not None and not a.conc:
        return b
    if b.conc is not None and not b.conc:
        return a
    elt = a.elt if a.elt is not None else b.elt

    def at(i):
        if is_num(i) and is_num(a.len):
            return a.at(i) if num(i) < num(a.len) else b.at(i - a.len)
        return Z(z3.If(i < a.len, eng.z(a.at(i), elt), eng.z(b.at(i - a.len), elt)), elt)
    q = SeqV(z3.simplify(a.len + b.len), at, elt)
    q.parts = (a.parts or [a]) + (b.parts or [b])
    return q


@model('Iterator.chain')
def m_chain(x):
    a = rest(x.eng, x.st, x.args[0], x.atys[0])
    b = rest(x.eng, x.st, x.args[1], x.atys[1])
    if (a.conc is None) != (b.conc is None):
        a, b = ground(x, a, b.elt), ground(x, b, a.elt)
    return one(x, It(concat(x.eng, a, b)))


def ground(x, s, elt):
    """known elements that need a state to become terms (they hold lists), as terms"""
    elt = s.elt if s.elt is not None else elt
    if not s.conc or elt is None:
        return s

    def g(v):
        try:
            x.eng.z(v, elt)
            return v
        except Unsupported:
            return Z(x.eng.z(v, elt, x.st), elt)
    return x.eng.conc_seq([g(v) for v in s.conc], s.elt)


@model('Iterator.skip', 'Iterator.take')
def m_skip(x):
    eng = x.eng
    s = rest(eng, x.st, x.args[0], x.atys[0])
    n = z3.simplify(eng.z(ld(x, x.args[1]), USIZE, x.st))
    if s.conc is not None and is_num(n):
        l = s.conc[num(n):] if x.c.method == 'skip' else s.conc[:num(n)]
        return one(x, It(eng.conc_seq(l, s.elt)))
    m = z3.If(n <= s.len, n, s.len)
    if x.c.method == 'skip':
        return one(x, It(SeqV(z3.simplify(s.len - m), lambda i: s.at(i + n), s.elt)))
    return one(x, It(SeqV(z3.simplify(m), s.at, s.elt)))


@model('Iterator.peekable')
def m_peekable(x):
    v = x.args[0]
    it = as_iter(x.eng, x.st, v, x.atys[0])
    return one(x, It(it.seq, it.lo, it.hi, True))


@model('Peekable::peek')
def m_peek(x):
    it = x.eng.load(x.st, x.args[0])
    out = []
    for s, b in bools(x.eng, x.st, it.lo < it.hi):
        out.append((s, mk_some(x.eng.elem(it.seq, z3.simplify(it.lo), s), dty=x.dty) if b else mk_none(dty=x.dty)))
    return out


@model('Iterator.next')
def m_next(x):
    r = x.args[0]
    v = x.eng.load(x.st, r)
    while isinstance(v, MutRef):
        r, v = v, x.eng.load(x.st, v)
    if not isinstance(v, It):
        if not isinstance(r, MutRef):
            return None
        v = as_iter(x.eng, x.st, v, x.atys[0])
    out = []
    for s, b in bools(x.eng, x.st, v.lo < v.hi):
        if b:
            e = x.eng.elem(v.seq, z3.simplify(v.lo), s)
            x.eng.store(s, r, It(v.seq, z3.simplify(v.lo + 1), v.hi, v.peekable))
            out.append((s, mk_some(e, dty=x.dty)))
        else:
            out.append((s, mk_none(dty=x.dty)))
    return out


@model('DoubleEndedIterator.next_back')
def m_next_back(x):
    r = x.args[0]
    v = x.eng.load(x.st, r)
    if not isinstance(v, It):
        return None
    out = []
    for s, b in bools(x.eng, x.st, v.lo < v.hi):
        if b:
            h = z3.simplify(v.hi - 1)
            e = x.eng.elem(v.seq, h, s)
            x.eng.store(s, r, It(v.seq, v.lo, h, v.peekable))
            out.append((s, mk_some(e, dty=x.dty)))
        else:
            out.append((s, mk_none(dty=x.dty)))
    return out


EXACT = ('std::slice::Iter', 'std::vec::IntoIter', 'std::array::IntoIter', 'std::slice::IterMut', 'std::option::IntoIter')


@model('ExactSizeIterator.len', 'Iterator.count', 'Iterator.size_hint')
def m_count(x):
    s = rest(x.eng, x.st, x.args[0], x.atys[0])
    if x.c.method == 'size_hint':
        t = peel(x.atys[0]) if x.atys[0] is not None else None
        if t is None or t[0] != 'adt' or t[1] not in EXACT:
            return None
        o = Ty(('adt', 'std::option::Option', (USIZE,)))
        return one(x, Agg(Ty(('tuple', (USIZE, o))), 0, [zi(s.len), Agg(o, 1, [zi(s.len)])]))
    return one(x, zi(s.len))


def pred_loop(x, s, f, on_hit, on_miss, argmap=lambda v: v):
    """sequential search on a concrete sequence"""
    eng = x.eng
    acc = [x.st]
    out = []
    for j, v in enumerate(s.conc):
        nxt = []
        for st in acc:
            for s2, r in eng.call_value(st, f, [argmap(v)], BOOL_TY):
                for s3, b in bools(eng, s2, eng.z(r, BOOL_TY, s2)):
                    if b:
                        out.append((s3, on_hit(j, v)))
                    else:
                        nxt.append(s3)
        acc = nxt
    for st in acc:
        out.append((st, on_miss()))
    return out


def first_where(x, s, f, on_hit, on_miss, want=True):
    """first index whose predicate is `want` on a symbolic sequence"""
    eng = x.eng
    st = x.st
    L = eng.lam(st, s.len, lambda s2, k: eng.call_value(s2, f, [s.at(k)], BOOL_TY))
    val = L.value(BOOL_TY)
    P = (lambda i: eng.z(val(i), BOOL_TY)) if want else (lambda i: z3.Not(eng.z(val(i), BOOL_TY)))
    i = z3.Int('i!%d' % next(eng.cnt))
    fct = L.facts(i)
    if not z3.is_true(fct):
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len), fct)))
    out = []
    s1 = st.copy()
    s1.branch(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len), z3.Not(P(i)))))
    if eng.feasible(s1):
        out.append((s1, on_miss()))
    k = eng.fresh('first', z3.IntSort())
    s2 = st.copy()
    s2.branch(z3.And(k >= 0, k < s.len, P(k), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.Not(P(i))))))
    if eng.feasible(s2):
        out.append((s2, on_hit(k, s.at(k))))
    return out


@model('Iterator.find', 'Iterator.position', 'Iterator.any', 'Iterator.all', 'Itertools.contains', 'slice::contains')
def m_search(x):
    m = x.c.method
    it = x.args[0]
    eng = x.eng
    s = rest(eng, x.st, it, x.atys[0])
    byref = isinstance(it, MutRef)
    f = x.args[1]
    want = True
    if m == 'all':
        want = False
    if m == 'contains':
        q = ld(x, f)
        qt = x.atys[1]
        et = s.elt if s.elt is not None else qt
        eqf = eq_expr(x, et) if eng.scopes and (not byref or isinstance(eng.load(x.st, it), It)) else None
        if eqf is not None:
            # inside a generic closure: no case split; where a borrowed iterator stops is left open
            if byref:
                b0 = eng.load(x.st, it)
                w = eng.fresh('stop', z3.IntSort())
                x.st.assume(z3.And(w >= b0.lo, w <= b0.hi))
                eng.store(x.st, it, It(b0.seq, w, b0.hi, b0.peekable))
            return one(x, zb(quant(eng, s, lambda v: eqf(eng.z(v, et, x.st), eng.z(q, et, x.st)), False)))
        f = PyFn(lambda e, st, args, dty: eq_disp(e, st, args[0], q, et, qt or et, x.caller, x.tenv) if not structural_eq(e, et) else [(st, zb(e.z(args[0], et, st) == e.z(q, et, st)))])
    base = eng.load(x.st, it) if byref else None
    hit = {'find': lambda k, v: (k, mk_some(v, dty=x.dty)), 'position': lambda k, v: (k, mk_some(zi(k), dty=x.dty)), 'any': lambda k, v: (k, zb(z3.BoolVal(True))), 'contains': lambda k, v: (k, zb(z3.BoolVal(True))), 'all': lambda k, v: (k, zb(z3.BoolVal(False)))}[m]
    miss = {'find': lambda: (None, mk_none(dty=x.dty)), 'position': lambda: (None, mk_none(dty=x.dty)), 'any': lambda: (None, zb(z3.BoolVal(False))), 'contains': lambda: (None, zb(z3.BoolVal(False))), 'all': lambda: (None, zb(z3.BoolVal(True)))}[m]
    if s.conc is not None and len(s.conc) <= 8:
        if m == 'all':
            g = PyFn(lambda e, st, args, dty: [(s2, zb(z3.simplify(z3.Not(e.z(r, BOOL_TY, s2))))) for s2, r in e.call_value(st, f, args, BOOL_TY)])
        else:
            g = f
        outs = pred_loop(x, s, g, hit, miss)
    else:
        outs = first_where(x, s, f, hit, miss, want)
    res = []
    for st, (k, v) in outs:
        if byref and isinstance(base, It):
            eng.store(st, it, It(base.seq, base.hi, base.hi, base.peekable) if k is None else It(base.seq, z3.simplify(base.lo + k + 1), base.hi, base.peekable))
        elif byref and m not in ('contains',) and not isinstance(base, SeqV):
            raise Unsupported('search through a by-reference repository iterator')
        res.append((st, v))
    return res


@model('Iterator.find_map')
def m_find_map(x):
    s = rest(x.eng, x.st, x.args[0], x.atys[0])
    eng = x.eng
    if s.conc is not None:
        acc = [x.st]
        out = []
        for v in s.conc:
            nxt = []
            for st in acc:
                for s2, r in eng.call_value(st, x.args[1], [v], x.dty):
                    for s3, i, fs in cases(eng, s2, r):
                        if i == 1:
                            out.append((s3, mk_some(fs[0], dty=x.dty)))
                        else:
                            nxt.append(s3)
            acc = nxt
        return out + [(st, mk_none(dty=x.dty)) for st in acc]
    st = x.st
    L = eng.lam(st, s.len, lambda s2, k: eng.call_value(s2, x.args[1], [s.at(k)], x.dty))
    val = L.value(x.dty)
    V = lambda i: eng.z(val(i), x.dty)
    so = eng.sort(x.dty)
    P = lambda i: so.recognizer(1)(V(i))
    i = z3.Int('i!%d' % next(eng.cnt))
    fct = L.facts(i)
    if not z3.is_true(fct):
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len), fct)))
    out = []
    s1 = st.copy()
    s1.branch(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len), z3.Not(P(i)))))
    if eng.feasible(s1):
        out.append((s1, mk_none(dty=x.dty)))
    k = eng.fresh('first', z3.IntSort())
    s2 = st.copy()
    s2.branch(z3.And(k >= 0, k < s.len, P(k), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.Not(P(i))))))
    if eng.feasible(s2):
        out.append((s2, mk_some(Z(so.accessor(1, 0)(V(k)), inner_opt(x.dty)), dty=x.dty)))
    return out


def select_seq(eng, st, s, keep, val, elt):
    """sub-sequence of the indices satisfying keep(i), elements val(i): skolemised order-preserving selection"""
    n = next(eng.cnt)
    idx = z3.Function('idx!%d' % n, z3.IntSort(), z3.IntSort())
    inv = z3.Function('inv!%d' % n, z3.IntSort(), z3.IntSort())
    if eng.scopes:
        raise Unsupported('filter inside a generic closure')
    m = eng.fresh('flen', z3.IntSort())
    i, j = z3.Int('i!%d' % n), z3.Int('j!%d' % n)
    st.assume(z3.And(m >= 0, m <= s.len))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(idx(j) >= 0, idx(j) < s.len, keep(idx(j)), inv(idx(j)) == j)), patterns=[idx(j)]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), idx(i) < idx(j)), patterns=[z3.MultiPattern(idx(i), idx(j))]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len, keep(i)), z3.And(inv(i) >= 0, inv(i) < m, idx(inv(i)) == i)), patterns=[inv(i)]))
    # make the inverse available whenever an element of the source is mentioned
    try:
        t = eng.z(s.at(i), s.elt, State())
        pat = [t] if z3.is_app(t) and t.num_args() == 2 and z3.eq(t.arg(1), i) and not z3.is_arith(t) else []
    except Unsupported:
        pat = []
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len), z3.Or(z3.Not(keep(i)), z3.And(inv(i) >= 0, inv(i) < m, idx(inv(i)) == i))), patterns=pat) if pat else
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len), z3.Or(z3.Not(keep(i)), z3.And(inv(i) >= 0, inv(i) < m)))))
    r = SeqV(m, lambda q: val(idx(q)), elt)
    r.sel = (s, keep, idx, inv)
    return r


@model('Iterator.filter', 'Iterator.filter_map')
def m_filter(x):
    eng = x.eng
    s = rest(eng, x.st, x.args[0], x.atys[0])
    fm = x.c.method == 'filter_map'
    if s.conc is not None:
        acc = [(x.st, [])]
        elt = margT(x, 0) if fm else s.elt
        for v in s.conc:
            nxt = []
            for st, l in acc:
                for s2, r in eng.call_value(st, x.args[1], [v], option_ty(elt) if fm else BOOL_TY):
                    if fm:
                        for s3, i, fs in cases(eng, s2, r):
                            nxt.append((s3, l + [fs[0]] if i == 1 else l))
                    else:
                        for s3, b in bools(eng, s2, eng.z(r, BOOL_TY, s2)):
                            nxt.append((s3, l + [v] if b else l))
            acc = nxt
        return [(st, It(eng.conc_seq(l, elt))) for st, l in acc]
    st = x.st
    rt = option_ty(margT(x, 0)) if fm else BOOL_TY
    L = eng.lam(st, s.len, lambda s2, k: eng.call_value(s2, x.args[1], [s.at(k)], rt))
    val = L.value(rt)
    i = z3.Int('i!%d' % next(eng.cnt))
    fct = L.facts(i)
    if not z3.is_true(fct):
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len), fct)))
    if fm:
        so = eng.sort(rt)
        q = select_seq(eng, st, s, lambda i: so.recognizer(1)(eng.z(val(i), rt)), lambda i: Z(so.accessor(1, 0)(eng.z(val(i), rt)), margT(x, 0)), margT(x, 0))
    else:
        q = select_seq(eng, st, s, lambda i: eng.z(val(i), BOOL_TY), s.at, s.elt)
    return one(x, It(q))


@model('Iterator.flat_map', 'Iterator.flatten', 'slice::concat')
def m_flat(x):
    eng = x.eng
    s = rest(eng, x.st, x.args[0], x.atys[0])
    f = x.args[1] if x.c.method == 'flat_map' else None
    ut = margT(x, 0) if f is not None else s.elt
    if s.conc is not None:
        acc = [(x.st, eng.conc_seq([], None))]
        for v in s.conc:
            nxt = []
            for st, q in acc:
                outs = eng.call_value(st, f, [v], ut) if f is not None else [(st, v)]
                for s2, r in outs:
                    for s3, it in iters_of(eng, s2, r, ut, x):
                        nxt.append((s3, concat(eng, q, rest(eng, s3, it))))
            acc = nxt
        return [(st, It(q)) for st, q in acc]
    if f is None:
        f = PyFn(lambda e, st, args, dty: [(st, args[0])])
    if s.parts is not None:
        acc = [(x.st, eng.conc_seq([], None))]
        for p in s.parts:
            x2 = copy.copy(x)
            nxt = []
            for st, q in acc:
                x2.st, x2.args = st, [It(p)] + list(x.args[1:])
                nxt += [(s3, concat(eng, q, it.seq)) for s3, it in m_flat(x2)]
            acc = nxt
        return [(st, It(q)) for st, q in acc]

    def body(s2, k):
        out = []
        for s3, r in eng.call_value(s2, f, [s.at(k)], ut):
            for s4, it in iters_of(eng, s3, r, ut, x):
                out.append((s4, rest(eng, s4, it)))
        return out
    L = eng.lam(x.st, s.len, body)
    if not L.alts:
        raise Unsupported('flat_map closure never returns')
    if all(v.conc is not None and len(v.conc) == 1 for b, a, v, s3 in L.alts):
        # one element each: a map
        elt = next((v.elt for b, a, v, s3 in L.alts if v.elt is not None), None)

        def single(e, st, args, dty):
            return [(s4, rest(e, s4, it).conc[0]) for s3, r in e.call_value(st, f, args, ut) for s4, it in iters_of(e, s3, r, ut, x)]
        return [(s2, It(q)) for s2, q in map_seq(eng, x.st, s, PyFn(single), elt)]
    return one(x, It(flat_seq(eng, x.st, L, s)))


def flat_seq(eng, st, L, s, like=None, elt=None):
    """concatenation of the sequences L(k), k an index of s (with the same shape as the flat sequence 'like')"""
    alts = L.alts
    for b, a, v, s3 in alts:
        elt = elt or v.elt
    i = z3.Int('i!%d' % next(eng.cnt))
    fct = L.facts(i)
    if not z3.is_true(fct):
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len), fct)))

    def seq_at(k):
        return [(L.inst(z3.And(b) if b else z3.BoolVal(True), k), L.inst_val(v, k)) for b, a, v, s3 in alts]

    def at_at(k, j):
        l = seq_at(k)
        if len(l) == 1:
            return l[0][1].at(j)
        e = eng.z(l[-1][1].at(j), elt)
        for g, v in reversed(l[:-1]):
            e = z3.If(g, eng.z(v.at(j), elt), e)
        return Z(e, elt)
    if like is not None:
        o = like.flat
        q = SeqV(like.len, lambda t: at_at(o.oi(t), o.ii(t)), elt)
        q.flat = Flat(o.outer, seq_at, o.oi, o.ii, o.pos)
        return q
    if eng.scopes:
        raise Unsupported('flat_map inside a generic closure')
    n = next(eng.cnt)
    oi = z3.Function('fo!%d' % n, z3.IntSort(), z3.IntSort())
    ii = z3.Function('fi!%d' % n, z3.IntSort(), z3.IntSort())
    pos = z3.Function('fp!%d' % n, z3.IntSort(), z3.IntSort(), z3.IntSort())
    m = eng.fresh('fmlen', z3.IntSort())
    j, k = z3.Int('j!%d' % n), z3.Int('k!%d' % n)
    q = SeqV(m, lambda t: at_at(oi(t), ii(t)), elt)
    q.flat = Flat(s, seq_at, oi, ii, pos)
    len_at = q.flat.len_at
    st.assume(m >= 0)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(oi(j) >= 0, oi(j) < s.len, ii(j) >= 0, ii(j) < len_at(oi(j)), pos(oi(j), ii(j)) == j)), patterns=[oi(j)]))
    st.assume(z3.ForAll([j, k], z3.Implies(z3.And(k >= 0, k < s.len, j >= 0, j < len_at(k)), z3.And(pos(k, j) >= 0, pos(k, j) < m, oi(pos(k, j)) == k, ii(pos(k, j)) == j)), patterns=[pos(k, j)]))
    eng.flat_info = (oi, ii, pos, len_at, at_at)
    return q


def iters_of(eng, st, v, ty, x):
    """into_iter of a value, through repository IntoIterator impls when needed"""
    if isinstance(v, (It, SeqV)) or (isinstance(v, Z) and eng.canon(v.ty)[0] == 'list') or (isinstance(v, Agg) and v.ty[0] == 'adt' and EXT_ALIAS.get(v.ty[1], v.ty[1]) in EXT_ADTS):
        return [(st, as_iter(eng, st, v, ty))]
    try:
        return [(st, as_iter(eng, st, v, ty))]
    except Unsupported:
        pass
    c = Callee()
    t = ty if ty is not None else v.ty
    c.kind, c.self_ty, c.trait, c.targs, c.method, c.margs, c.path, c.tyargs = 'trait', t, 'std::iter::IntoIterator', [], 'into_iter', [], None, []
    c.text = 'IntoIterator::into_iter'
    return eng.dispatch(st, c, [v], [t], None, x.caller, x.tenv)


class FoldCtx:
    def __init__(self, **k):
        self.__dict__.update(k)


class FoldStep:
    """an arbitrary round of a fold over a symbolic sequence, described by the invariant the contract gives"""

    def __init__(self, x, s, f, kind):
        self.x, self.s, self.f, self.kind, self.eng = x, s, f, kind, x.eng
        self.inv = self.eng.verifying.folds
        self.cells = reachable(x.st, f)

    def mk(self, st, k, acc):
        return self.inv(FoldCtx(eng=self.eng, st=st, k=k, seq=self.s, acc=acc, entry=self.x.st, n=self.s.len, kind=self.kind, f=self.f))

    def entry(self, acc):
        for name, g in self.mk(self.x.st, z3.IntVal(0), acc):
            self.eng.oblige(self.x.st, 'fold invariant on entry: ' + name, g)

    def arbitrary(self, mkacc):
        eng = self.eng
        st = self.x.st.copy()
        for g in eng.heap_sorts:
            eng.set_heap(st, g, eng.fresh('heap', eng.heap_sort(g)))
        for c in self.cells:
            st.mem[c] = eng.havoc_val(st.mem[c], st)
        k = eng.fresh('k', z3.IntSort())
        acc = mkacc(st, k)
        st.assume(z3.And(k >= 0, k <= self.s.len))
        for _, g in self.mk(st, k, acc):
            st.assume(g)
        return st, k, acc

    def call(self, st, args, rty):
        for s2, r in self.eng.call_value(st, self.f, args, rty):
            for c, v in st.mem.items():
                if c not in self.cells and s2.mem.get(c) is not v:
                    raise Unsupported('a fold changes something its closure has no reference to')
            yield s2, r

    def preserved(self, st, k, acc):
        for name, g in self.mk(st, k, acc):
            self.eng.oblige(st, 'fold invariant preserved: ' + name, g)


def inv_fold(x, s, m):
    """a fold over a symbolic sequence, by the invariant the contract under verification gives for it"""
    eng = x.eng
    accty = x.atys[1] if x.atys[1] is not None else x.args[1].ty
    F = FoldStep(x, s, x.args[2], m)
    F.entry(x.args[1])
    new = lambda st, k: eng.fresh_val('acc', accty, st)
    out = []
    # one more round
    st, k, acc = F.arbitrary(new)
    st.branch(k < s.len)
    rty = x.dty if m == 'try_fold' else accty
    for s2, r in F.call(st, [acc, s.at(k)], rty):
        if m == 'fold':
            rs = [(s2, True, r)]
        else:
            rs = try_branches(eng, s2, r, x.dty)
        for s3, go, v in rs:
            if go:
                F.preserved(s3, k + 1, v)
            else:
                out.append((s3, v))
    # the end of the sequence
    st, k, acc = F.arbitrary(new)
    st.branch(k == s.len)
    out.append((st, acc if m == 'fold' else try_output(eng, acc, x.dty)))
    return out


def inv_collect(x, s, p):
    """collecting a sequence whose elements are computed with side effects; p: the Option or Result collected into, or None"""
    eng = x.eng
    src, f = s.eff
    et = elt_of(p[2][0]) if p is not None else elt_of(x.dty)
    if et is None:
        raise Unsupported('collect with side effects into ' + ty_str(x.dty))
    F = FoldStep(x, src, f, 'collect')
    F.entry(eng.conc_seq([], et))

    def new(st, k):
        l = eng.as_seq(eng.fresh_val('acc', Ty(('slice', et)), st), st)
        st.assume(l.len == k)
        return l
    out = []
    st, k, acc = F.arbitrary(new)
    st.branch(k < src.len)
    for s2, r in F.call(st, [src.at(k)], s.elt):
        rs = [(s2, True, r)] if p is None else try_branches(eng, s2, r, s.elt)
        for s3, go, v in rs:
            if go:
                F.preserved(s3, k + 1, concat(eng, acc, eng.conc_seq([v], et)))
            elif isinstance(v, Agg):
                out.append((s3, Agg(p, v.variant, v.fields)))
            else:
                q = peel(s.elt)
                e = eng.z(v, q, s3)
                out.append((s3, Agg(p, 0, []) if q[1] == 'std::option::Option' else Agg(p, 1, [Z(e.sort().accessor(1, 0)(e), q[2][1])])))
    st, k, acc = F.arbitrary(new)
    st.branch(k == src.len)
    out.append((st, acc if p is None else try_output(eng, acc, p)))
    return out


def try_branches(eng, st, r, t):
    """-> [(state, continues?, output value | whole residual value)]"""
    p = peel(t)
    good = {'std::option::Option': 1, 'std::result::Result': 0}[p[1]]
    if isinstance(r, Agg):
        return [(st, r.variant == good, r.fields[0] if r.variant == good else r)]
    e = eng.z(r, p, st)
    so = e.sort()
    l = []
    eng.fork(st, so.recognizer(good)(e), True, l)
    eng.fork(st, z3.Not(so.recognizer(good)(e)), False, l)
    return [(s, go, Z(so.accessor(good, 0)(e), p[2][0]) if go else r) for s, go in l]


def try_output(eng, v, t):
    p = peel(t)
    return Agg(p, {'std::option::Option': 1, 'std::result::Result': 0}[p[1]], [v])


@model('Iterator.fold', 'Iterator.try_fold', 'Iterator.for_each', 'Itertools.fold_ok')
def m_fold(x):
    eng = x.eng
    m = x.c.method
    s = rest(eng, x.st, x.args[0], x.atys[0])
    if s.conc is None and m in ('fold', 'try_fold') and eng.verifying is not None and eng.verifying.folds is not None:
        return inv_fold(x, s, m)
    if s.conc is None:
        raise Unsupported('%s over a symbolic sequence' % m)
    if m == 'for_each':
        acc = [x.st]
        for v in s.conc:
            acc = [s2 for st in acc for s2, _ in eng.call_value(st, x.args[1], [v], UNIT_TY)]
        return [(st, UNIT) for st in acc]
    if m == 'fold':
        acc = [(x.st, x.args[1])]
        for v in s.conc:
            acc = [o for st, a in acc for o in eng.call_value(st, x.args[2], [a, v], x.dty)]
        return acc
    return None


@model('Iterator.try_for_each')
def m_try_for_each(x):
    eng = x.eng
    s = rest(eng, x.st, x.args[0], x.atys[0])
    run, out, done = [x.st], [], []
    conc = s.conc
    if conc is None:
        if not (x.c.self_ty is not None and peel(x.c.self_ty)[0] == 'adt' and peel(x.c.self_ty)[1] == 'std::option::IntoIter'):
            raise Unsupported('try_for_each over a symbolic sequence')
        run = []
        for st, b in bools(eng, x.st, s.len > 0):
            (run if b else done).append(st)
        conc = [s.at(z3.IntVal(0))]
    for v in conc:
        nxt = []
        for st in run:
            for s2, r in eng.call_value(st, x.args[1], [v], x.dty):
                for s3, go, w in try_branches(eng, s2, r, x.dty):
                    if go:
                        nxt.append(s3)
                    else:
                        out.append((s3, w))
        run = nxt
    return out + [(st, try_output(eng, UNIT, x.dty)) for st in run + done]


@model('Iterator.max', 'Iterator.min')
def m_itmax(x):
    eng = x.eng
    s = rest(eng, x.st, x.args[0], x.atys[0])
    et = s.elt if s.elt is not None else inner_opt(x.dty)
    p = peel(et)
    if p[0] != 'prim' or p[1] not in INT_BITS:
        return None
    out = []
    for st, b in bools(eng, x.st, s.len > 0):
        if not b:
            if s.parts is not None or s.flat is not None or s.sel is not None:
                st.assume(quant(eng, s, lambda v: z3.BoolVal(False), True))
            out.append((st, mk_none(dty=x.dty)))
            continue
        mx = eng.fresh('ext', z3.IntSort())
        lo, hi = int_range(p[1])
        st.assume(z3.And(mx >= lo, mx <= hi))  # a machine integer
        k = eng.fresh('arg', z3.IntSort())
        i = z3.Int('i!%d' % next(eng.cnt))
        A = lambda j: eng.z(s.at(j), et)
        if s.parts is not None or s.flat is not None or s.sel is not None:
            st.assume(quant(eng, s, lambda v: eng.z(v, et) == mx, False))
        else:
            st.assume(z3.And(k >= 0, k < s.len, A(k) == mx))
        st.assume(quant(eng, s, lambda v: eng.z(v, et) <= mx if x.c.method == 'max' else eng.z(v, et) >= mx, True))
        out.append((st, mk_some(Z(mx, et), dty=x.dty)))
    return out


@model('Iterator.collect', 'Itertools.collect_vec', 'Itertools.try_collect', 'FromIterator.from_iter')
def m_collect(x):
    eng = x.eng
    d = x.dty
    s = rest(eng, x.st, x.args[0], x.atys[0], eff=True)
    exhaust(eng, x.st, x.args[0]) if isinstance(x.args[0], MutRef) else None
    p = peel(d)
    if s.eff is not None:
        if eng.canon(d)[0] == 'list':
            return inv_collect(x, s, None)
        if p[0] == 'adt' and p[1] in ('std::option::Option', 'std::result::Result'):
            return inv_collect(x, s, p)
    if eng.canon(d)[0] == 'list':
        et = elt_of(d)
        if s.conc is not None:
            return one(x, eng.conc_seq(s.conc, et))
        r = SeqV(s.len, s.at, et if s.elt is None or eng.sort(et) == eng.sort(s.elt) else et, z=s.z)
        r.parts, r.flat, r.sel = s.parts, s.flat, s.sel
        return one(x, r)
    if p[0] == 'adt' and p[1] in ('std::option::Option', 'std::result::Result'):
        return collect_try(x, s, p)
    if p[0] == 'adt' and p[1] in eng.src.adts or x.c.method == 'collect':
        if x.c.method == 'collect' and eng.prog.is_repo_path(p[1] if p[0] == 'adt' else None):
            c = Callee()
            c.kind, c.self_ty, c.trait, c.targs, c.method, c.margs, c.path, c.tyargs = 'trait', d, 'std::iter::FromIterator', [s.elt], 'from_iter', [], None, []
            c.text = 'FromIterator::from_iter'
            return eng.dispatch(x.st, c, [It(s)], [None], d, x.caller, x.tenv)
        if p[0] == 'adt' and p[1].split('::')[-1] in ('String',):
            return one(x, eng.fresh_val('string', d, x.st))
    if p[0] == 'param':
        # generic collection: abstract function of the sequence
        f = z3.Function('collect<%s>' % ty_str(p), eng.sort(Ty(('slice', s.elt))), eng.sort(p))
        return one(x, Z(f(eng.seq_to_z(s, x.st)), p))
    return None


def collect_try(x, s, p):
    """collect::<Option<C>> / Result<C, E>"""
    eng = x.eng
    isopt = p[1] == 'std::option::Option'
    good = 1 if isopt else 0
    ct = p[2][0]
    et = elt_of(ct)
    if et is None:
        raise Unsupported('collect into ' + ty_str(p))
    eltty = s.elt
    if s.conc is not None:
        acc = [(x.st, [])]
        out = []
        for v in s.conc:
            nxt = []
            for st, l in acc:
                for s2, i, fs in cases(eng, st, v):
                    if i == good:
                        nxt.append((s2, l + [fs[0]]))
                    else:
                        out.append((s2, Agg(p, i, fs)))
            acc = nxt
        return out + [(st, Agg(p, good, [eng.conc_seq(l, et)])) for st, l in acc]
    if eltty is None:
        raise Unsupported('collect of unknown element type')
    so = eng.sort(eltty)
    V = lambda i: eng.z(s.at(i), eltty)
    i = z3.Int('i!%d' % next(eng.cnt))
    out = []
    s1 = x.st.copy()
    s1.branch(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len), so.recognizer(good)(V(i)))))
    if eng.feasible(s1):
        out.append((s1, Agg(p, good, [SeqV(s.len, lambda k: Z(so.accessor(good, 0)(V(k)), et), et)])))
    k = eng.fresh('firsterr', z3.IntSort())
    s2 = x.st.copy()
    s2.branch(z3.And(k >= 0, k < s.len, z3.Not(so.recognizer(good)(V(k))), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), so.recognizer(good)(V(i))))))
    if eng.feasible(s2):
        out.append((s2, Agg(p, 1 - good, [] if isopt else [Z(so.accessor(1, 0)(V(k)), p[2][1])])))
    return out


@model('Iterator.unzip')
def m_unzip(x):
    eng = x.eng
    s = rest(eng, x.st, x.args[0], x.atys[0])
    d = peel(x.dty)
    res = []
    for n, lt in enumerate(d[1]):
        et = elt_of(lt)
        if et is None:
            return None
        if s.conc is not None:
            res.append(eng.conc_seq([eng.project(v, s.elt, None, n, et, x.st) for v in s.conc], et))
        else:
            res.append(SeqV(s.len, (lambda n, et: lambda i: eng.project(s.at(i), s.elt, None, n, et, x.st))(n, et), et))
    return one(x, Agg(d, 0, res))


# ---------------------------------------------------------------- Vec / slices
@model('Vec::new', 'VecDeque::new', 'Vec::with_capacity', 'VecDeque::with_capacity')
def m_vec_new(x):
    return one(x, x.eng.conc_seq([], elt_of(x.dty)))


@model('Vec::push', 'VecDeque::push_back', 'VecDeque::push_front')
def m_push(x):
    r = x.args[0]
    s = x.eng.as_seq(r, x.st)
    n = x.eng.conc_seq([x.args[1]], s.elt if s.elt is not None else x.atys[1])
    x.eng.store(x.st, r, concat(x.eng, n, s) if x.c.method == 'push_front' else concat(x.eng, s, n))
    return one(x, UNIT)


@model('Vec::pop', 'VecDeque::pop_back', 'VecDeque::pop_front')
def m_pop(x):
    r = x.args[0]
    eng = x.eng
    s = eng.as_seq(r, x.st)
    out = []
    for st, b in bools(eng, x.st, s.len > 0):
        if not b:
            out.append((st, mk_none(dty=x.dty)))
            continue
        if x.c.method == 'pop_front':
            v = eng.elem(s, z3.IntVal(0), st)
            n = eng.conc_seq(s.conc[1:], s.elt) if s.conc is not None else SeqV(z3.simplify(s.len - 1), lambda i: s.at(i + 1), s.elt)
        else:
            v = eng.elem(s, z3.simplify(s.len - 1), st)
            n = eng.conc_seq(s.conc[:-1], s.elt) if s.conc is not None else SeqV(z3.simplify(s.len - 1), s.at, s.elt)
        eng.store(st, r, n)
        out.append((st, mk_some(v, dty=x.dty)))
    return out


@model('Vec::truncate', 'Vec::split_off', 'Vec::clear', 'Vec::reserve', 'VecDeque::truncate', 'VecDeque::clear')
def m_truncate(x):
    r = x.args[0]
    eng = x.eng
    if x.c.method == 'reserve':
        return one(x, UNIT)
    s = eng.as_seq(r, x.st)
    if x.c.method == 'clear':
        eng.store(x.st, r, eng.conc_seq([], s.elt))
        return one(x, UNIT)
    n = z3.simplify(eng.z(ld(x, x.args[1]), USIZE, x.st))
    if x.c.method == 'truncate':
        eng.store(x.st, r, SeqV(z3.simplify(z3.If(n < s.len, n, s.len)), s.at, s.elt))
        return one(x, UNIT)
    out = []
    for st, b in bools(eng, x.st, n <= s.len):
        if b:
            eng.store(st, r, SeqV(n, s.at, s.elt))
            out.append((st, SeqV(z3.simplify(s.len - n), lambda i: s.at(i + n), s.elt)))
        else:
            eng.panic(st, 'split_off beyond the end')
    return out


@model('Vec::len', 'slice::len', 'VecDeque::len', 'array::len')
def m_len(x):
    return one(x, zi(x.eng.as_seq(x.args[0], x.st).len))


@model('Vec::is_empty', 'slice::is_empty', 'VecDeque::is_empty', 'ExactSizeIterator.is_empty')
def m_is_empty(x):
    return one(x, zb(z3.simplify(x.eng.as_seq(x.args[0], x.st).len == 0)))


@model('Extend.extend', 'Vec::extend_from_slice', 'Vec::append')
def m_extend(x):
    r = x.args[0]
    eng = x.eng
    if not isinstance(r, MutRef):
        return None
    v = eng.load(x.st, r)
    if not (isinstance(v, SeqV) or (isinstance(v, Z) and eng.canon(v.ty)[0] == 'list')):
        return None
    s = eng.as_seq(v, x.st)
    out = []
    for st, it in iters_of(eng, x.st, ld(x, x.args[1]), x.atys[1], x):
        q = rest(eng, st, it)
        eng.store(st, r, concat(eng, s, q))
        if x.c.method == 'append':
            eng.store(st, x.args[1], eng.conc_seq([], s.elt))
        out.append((st, UNIT))
    return out


@model('slice::first', 'slice::last', 'VecDeque::front', 'VecDeque::back', 'Iterator.last')
def m_first(x):
    eng = x.eng
    s = rest(eng, x.st, x.args[0], x.atys[0]) if x.c.kind == 'trait' else eng.as_seq(x.args[0], x.st)
    out = []
    for st, b in bools(eng, x.st, s.len > 0):
        ix = z3.IntVal(0) if x.c.method in ('first', 'front') else z3.simplify(s.len - 1)
        out.append((st, mk_some(eng.elem(s, ix, st), dty=x.dty) if b else mk_none(dty=x.dty)))
    return out


@model('slice::get', 'Iterator.nth', 'VecDeque::get')
def m_get(x):
    eng = x.eng
    if x.c.kind == 'trait':
        if isinstance(x.args[0], MutRef):
            it = eng.load(x.st, x.args[0])
            if not isinstance(it, It):
                return None
            n = eng.z(ld(x, x.args[1]), USIZE, x.st)
            out = []
            for st, b in bools(eng, x.st, it.lo + n < it.hi):
                if b:
                    eng.store(st, x.args[0], It(it.seq, z3.simplify(it.lo + n + 1), it.hi, it.peekable))
                    out.append((st, mk_some(eng.elem(it.seq, z3.simplify(it.lo + n), st), dty=x.dty)))
                else:
                    eng.store(st, x.args[0], It(it.seq, it.hi, it.hi, it.peekable))
                    out.append((st, mk_none(dty=x.dty)))
            return out
    s = eng.as_seq(x.args[0], x.st)
    t = x.atys[1]
    if t is not None and peel(t)[0] != 'prim':
        return None
    n = z3.simplify(eng.z(ld(x, x.args[1]), USIZE, x.st))
    out = []
    for st, b in bools(eng, x.st, z3.And(n >= 0, n < s.len)):
        out.append((st, mk_some(eng.elem(s, n, st), dty=x.dty) if b else mk_none(dty=x.dty)))
    return out


@model('slice::get_unchecked')
def m_get_unchecked(x):
    eng = x.eng
    s = eng.as_seq(x.args[0], x.st)
    n = z3.simplify(eng.z(ld(x, x.args[1]), USIZE, x.st))
    eng.oblige(x.st, 'unchecked access within bounds', z3.And(n >= 0, n < s.len))
    return one(x, eng.elem(s, n, x.st))


@model('Index.index')
def m_index(x):
    eng = x.eng
    t = peel(x.atys[1]) if x.atys[1] is not None else None
    v = ld(x, x.args[0])
    if not (isinstance(v, (SeqV,)) or (isinstance(v, Z) and eng.canon(v.ty)[0] == 'list')):
        return None
    s = eng.as_seq(v, x.st)
    iv = ld(x, x.args[1])
    if t is not None and t[0] == 'prim':
        n = z3.simplify(eng.z(iv, USIZE, x.st))
        okc = z3.simplify(z3.And(n >= 0, n < s.len))
        if not z3.is_true(okc):
            bad = x.st.copy()
            bad.branch(z3.Not(okc))
            if eng.feasible(bad):
                eng.panic(bad, 'index out of bounds in ' + short(x.caller.name))
            x.st.branch(okc)
        return one(x, eng.elem(s, n, x.st))
    if t is not None and t[0] == 'adt' and isinstance(iv, Agg):
        p = EXT_ALIAS.get(t[1], t[1])
        lo = z3.IntVal(0)
        hi = s.len
        if p == 'std::ops::Range':
            lo, hi = eng.z(iv.fields[0], USIZE, x.st), eng.z(iv.fields[1], USIZE, x.st)
        elif p == 'std::ops::RangeFrom':
            lo = eng.z(iv.fields[0], USIZE, x.st)
        elif p == 'std::ops::RangeTo':
            hi = eng.z(iv.fields[0], USIZE, x.st)
        elif p != 'std::ops::RangeFull':
            return None
        okc = z3.simplify(z3.And(lo <= hi, hi <= s.len))
        if not z3.is_true(okc):
            bad = x.st.copy()
            bad.branch(z3.Not(okc))
            if eng.feasible(bad):
                eng.panic(bad, 'slice range out of bounds in ' + short(x.caller.name))
            x.st.branch(okc)
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        if s.conc is not None and is_num(lo) and is_num(hi):
            return one(x, eng.conc_seq(s.conc[num(lo):num(hi)], s.elt))
        return one(x, SeqV(z3.simplify(hi - lo), lambda i: s.at(i + lo), s.elt))
    return None


@model('IndexMut.index_mut')
def m_index_mut(x):
    eng = x.eng
    r = x.args[0]
    s = eng.as_seq(r, x.st)
    n = z3.simplify(eng.z(ld(x, x.args[1]), USIZE, x.st))
    okc = z3.simplify(z3.And(n >= 0, n < s.len))
    if not z3.is_true(okc):
        bad = x.st.copy()
        bad.branch(z3.Not(okc))
        if eng.feasible(bad):
            eng.panic(bad, 'index out of bounds in ' + short(x.caller.name))
        x.st.branch(okc)
    return one(x, MutRef(r.cell, tuple(r.projs) + (('elem', n),), s.elt))


@model('Arc::strong_count', 'Rc::strong_count')
def m_strong(x):
    return one(x, x.eng.fresh_val('refcount', USIZE, x.st))


@model('Arc::into_inner', 'Rc::into_inner')
def m_into_inner(x):
    # assumption: called with a unique handle (guarded by strong_count <= 1 in the source)
    x.eng.assumptions.add('Arc::into_inner succeeds when the reference count is one')
    return one(x, mk_some(x.args[0], dty=x.dty))


@model('Arc::ptr_eq', 'Rc::ptr_eq')
def m_ptr_eq(x):
    b = x.eng.fresh('ptreq', z3.BoolSort())
    a, c = x.args
    x.st.assume(z3.Implies(b, x.eng.z(a, x.atys[0], x.st) == x.eng.z(c, x.atys[1], x.st)))
    return one(x, zb(b))


@model('array::from_fn', 'Vec::reserve', 'Vec::shrink_to_fit', 'mem::drop', 'mem::forget')
def m_noop(x):
    if x.dty == UNIT_TY:
        return one(x, UNIT)
    return None


@model('Vec::clear', 'VecDeque::clear')
def m_clear(x):
    s = x.eng.as_seq(x.args[0], x.st)
    x.eng.store(x.st, x.args[0], x.eng.conc_seq([], s.elt))
    return one(x, UNIT)


@model('String::len', 'str::len')
def m_strlen(x):
    return one(x, zi(z3.Length(x.eng.z(ld(x, x.args[0]), STR_TY, x.st))))


@model('String::is_empty', 'str::is_empty')
def m_strempty(x):
    return one(x, zb(x.eng.z(ld(x, x.args[0]), STR_TY, x.st) == z3.StringVal('')))


@model('String::new')
def m_strnew(x):
    return one(x, Z(z3.StringVal(''), STR_TY))


@model('NonNull::as_ptr', 'hint::black_box', 'intrinsics::likely', 'intrinsics::unlikely')
def m_pass(x):
    return one(x, x.args[0])


@model('Itertools.unique')
def m_unique(x):
    """the elements of the list, each kept unless an equal one was kept before"""
    eng, st = x.eng, x.st
    s = rest(eng, st, x.args[0], x.atys[0])
    et = s.elt
    if et is None:
        raise Unsupported('unique: element type')
    eq = eq_expr(x, et)
    R = eng.as_seq(eng.fresh_val('unique', Ty(('list', et)), st), st)
    if eq is None:
        raise Unsupported('unique: equality of the elements')
    z = lambda v: eng.z(v, et, st)
    j = z3.Int('j!%d' % next(eng.cnt))
    inr = lambda i, l: z3.And(i >= 0, i < l.len)
    st.assume(R.len >= 0)
    plain = []

    def parts(l):
        for p in l.parts if l.parts is not None else [l]:
            if p.parts is not None:
                parts(p)
            elif p.conc is not None or p.flat is not None:
                plain.append((p, None))
            else:
                plain.append((p, z3.Function('unique_from!%d' % next(eng.cnt), z3.IntSort(), z3.IntSort())))
    parts(s)
    src = [quant(eng, p, lambda v: z(v) == z(R.at(j)), False) if f is None else z3.And(inr(f(j), p), z(p.at(f(j))) == z(R.at(j))) for p, f in plain]
    st.assume(z3.ForAll([j], z3.Implies(inr(j, R), z3.Or(src))))
    for p, f in plain:
        if f is None:
            k = z3.Int('k!%d' % next(eng.cnt))
            st.assume(quant(eng, p, lambda v: z3.Exists([k], z3.And(inr(k, R), eq(z(R.at(k)), z(v)))), True))
        else:
            d = z3.Function('unique_to!%d' % next(eng.cnt), z3.IntSort(), z3.IntSort())
            st.assume(z3.ForAll([j], z3.Implies(inr(j, p), z3.And(inr(d(j), R), eq(z(R.at(d(j))), z(p.at(j)))))))
    return one(x, It(R))
