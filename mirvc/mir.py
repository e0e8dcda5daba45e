"""Parser for rustc's MIR text (-Zunpretty=mir) -- lazy, function by function."""
import re, functools

class ParseError(Exception):
    pass

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = {')', ']', '}', '>'}


def scan_to(s, i, stops):
    """index of first char in `stops` at nesting depth 0, starting at i (len(s) if none)."""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                if s[i] == '\\':
                    i += 1
                i += 1
            i += 1
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or (s[i + 1] == '\\' )):
            # char literal
            j = s.find("'", i + 2 if s[i + 1] != '\\' else i + 3)
            if j > 0 and j - i <= 12:
                if d == 0 and c in stops:
                    return i
                i = j + 1
                continue
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            if d == 0 and '->' in stops:
                return i
            i += 2
            continue
        if c == '=' and i + 1 < n and s[i + 1] == '>':
            i += 2
            continue
        if d == 0 and c in stops:
            return i
        if c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
            if d < 0:
                return i
        i += 1
    return n


def split_top(s, sep=','):
    out = []
    i = 0
    n = len(s)
    while i < n:
        j = scan_to(s, i, {sep})
        out.append(s[i:j].strip())
        i = j + 1
    if out and out[-1] == '':
        out.pop()
    return [x for x in out if x != '']


# ---------------------------------------------------------------- types
class Ty(tuple):
    __slots__ = ()

    def __repr__(self):
        return 'Ty' + tuple.__repr__(self)


PRIMS = {'bool', 'char', 'str', 'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64', '!'}
INT_BITS = {'usize': 64, 'isize': -64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'i8': -8, 'i16': -16, 'i32': -32, 'i64': -64, 'i128': -128}


# shorter paths by which other modules and crates see a type (filled in by Program)
REEXPORT = {}


class Norm:
    """crate-aware path normalisation"""

    def __init__(self, crate, topmods):
        self.crate = crate
        self.top = topmods

    def path(self, p):
        seg = p.split('::', 1)[0]
        if seg in self.top and '::' in p:
            p = self.crate + '::' + p
            return REEXPORT.get(p, p)
        if seg == 'core' or seg == 'alloc':
            return 'std' + p[len(seg):]
        return REEXPORT.get(p, p)


_tycache = {}


def parse_type(s, norm):
    s = s.strip()
    key = (s, norm.crate)
    r = _tycache.get(key)
    if r is None:
        r = _parse_type(s, norm)
        _tycache[key] = r
    return r


def _strip_lt(s):
    return re.sub(r"^'\w+\s+", '', s)


def _parse_type(s, norm):
    if s.startswith('&'):
        t = s[1:].strip()
        t = _strip_lt(t)
        if t.startswith('mut '):
            return Ty(('ref', True, parse_type(t[4:], norm)))
        return Ty(('ref', False, parse_type(t, norm)))
    if s.startswith('*const '):
        return Ty(('ptr', False, parse_type(s[7:], norm)))
    if s.startswith('*mut '):
        return Ty(('ptr', True, parse_type(s[5:], norm)))
    if s.startswith('('):
        return Ty(('tuple', tuple(parse_type(x, norm) for x in split_top(s[1:-1]))))
    if s.startswith('['):
        inner = s[1:-1]
        j = scan_to(inner, 0, {';'})
        if j < len(inner):
            return Ty(('array', parse_type(inner[:j], norm), inner[j + 1:].strip()))
        return Ty(('slice', parse_type(inner, norm)))
    if s.startswith('{closure@') or s.startswith('{'):
        return Ty(('closure', s))
    if s.startswith('dyn ') or s.startswith('impl ') or s.startswith('for<') or s.startswith('fn(') or s.startswith('extern ') or s.startswith('unsafe '):
        return Ty(('opaque', s))
    if s == '!':
        return Ty(('prim', '!'))
    if s in PRIMS:
        return Ty(('prim', s))
    if s.startswith('<'):
        # <T as Trait>::Assoc   (possibly followed by more)
        j = scan_to(s, 1, set())  # position of matching '>'
        inner = s[1:j]
        rest = s[j + 1:]
        k = find_as(inner)
        if k >= 0:
            return Ty(('proj', parse_type(inner[:k], norm), inner[k + 4:].strip(), rest.lstrip(':')))
        return Ty(('opaque', s))
    # path with generics
    base, args = split_path_generics(s)
    if '::' not in base and base not in PRIMS:
        if re.match(r'^[A-Za-z_]\w*$', base) and not args:
            return Ty(('param', base))
    targs = tuple(parse_type(a, norm) for a in args if not a.startswith("'") and '=' not in _outer(a) and not a.startswith('const ') and not re.match(r'^\d', a))
    return Ty(('adt', norm.path(base), targs))


def _outer(a):
    # text with nested <> removed
    d = 0
    o = []
    for c in a:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            o.append(c)
    return ''.join(o)


def find_as(s):
    """index of ' as ' at depth 0"""
    d = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in '([{<':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == '>' and s[i - 1] not in '-=':
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return i
        i += 1
    return -1


def split_path_generics(s):
    """'a::b::<X>::c<Y>' -> ('a::b::c', all generic args concatenated)"""
    out = []
    args = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            j = scan_to(s, i + 1, set())
            inner = s[i + 1:j]
            if inner.startswith('impl ') and s.startswith('::', j + 1):
                out.append('<' + inner + '>')
            else:
                args.extend(split_top(inner))
                # drop preceding '::' of a turbofish
                if out[-2:] == [':', ':']:
                    out = out[:-2]
            i = j + 1
            continue
        out.append(c)
        i += 1
    return ''.join(out), args


def ty_str(t):
    k = t[0]
    if k == 'ref':
        return '&' + ('mut ' if t[1] else '') + ty_str(t[2])
    if k == 'ptr':
        return '*' + ty_str(t[2])
    if k == 'tuple':
        return '(' + ','.join(map(ty_str, t[1])) + ')'
    if k == 'slice':
        return '[' + ty_str(t[1]) + ']'
    if k == 'array':
        return '[' + ty_str(t[1]) + ';' + t[2] + ']'
    if k == 'adt':
        return t[1] + ('<' + ','.join(map(ty_str, t[2])) + '>' if t[2] else '')
    if k == 'proj':
        return '<' + ty_str(t[1]) + ' as ' + t[2] + '>::' + t[3]
    return str(t[1]) if len(t) > 1 else k


# ---------------------------------------------------------------- function bodies
class Fn:
    __slots__ = ('name', 'crate', 'text', 'norm', 'params', 'ret', '_body', 'kind', 'line', 'implspan')

    def __init__(self, name, crate, text, norm, kind):
        self.name = name
        self.crate = crate
        self.text = text
        self.norm = norm
        self.kind = kind
        self._body = None

    @property
    def body(self):
        if self._body is None:
            self._body = parse_body(self)
        return self._body


class Body:
    pass


HDR = re.compile(r'^(fn|const|static) ')


def load_crate(path, crate, topmods):
    """index a .mir file -> dict name -> [Fn], allocs"""
    norm = Norm(crate, topmods)
    fns = {}
    allocs = {}
    with open(path) as f:
        lines = f.read().split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('alloc'):
            m = re.match(r'^(alloc\d+) \(static: (.*?), size', ln)
            if m:
                allocs[m.group(1)] = m.group(2)
            i += 1
            continue
        if ln.startswith('fn ') or ln.startswith('const ') or ln.startswith('static '):
            if ln.endswith('{'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                kind = ln.split(' ', 1)[0]
                hdr = ln[len(kind) + 1:]
                if kind == 'fn':
                    k = fn_name_end(hdr)
                    name = hdr[:k]
                else:
                    k = scan_colon(hdr)
                    name = hdr[:k]
                    if name.startswith('mut '):
                        name = name[4:]
                fo = Fn(name, crate, (lines, i, j), norm, kind)
                fo.line = i
                fns.setdefault(name, []).append(fo)
                i = j + 1
                continue
            elif ln.startswith('const ') and ln.rstrip().endswith(';'):
                hdr = ln[6:]
                k = scan_colon(hdr)
                name = hdr[:k]
                fo = Fn(name, crate, (lines, i, i), norm, 'constval')
                fns.setdefault(name, []).append(fo)
        i += 1
    return fns, allocs


def fn_name_end(h):
    # up to '(' at depth 0 where '<impl at f.rs:1:2: 3:4>' may occur
    i = 0
    d = 0
    while i < len(h):
        c = h[i]
        if c in '<{':
            d += 1
        elif c in '>}' and h[i - 1] != '-':
            d -= 1
        elif c == '(' and d == 0:
            return i
        i += 1
    raise ParseError('fn header ' + h[:100])


def scan_colon(h):
    i = 0
    d = 0
    while i < len(h):
        c = h[i]
        if c in '<{[':
            d += 1
        elif c in '>}]' and h[i - 1] != '-':
            d -= 1
        elif c == ':' and d == 0:
            if h[i + 1:i + 2] == ':':
                i += 2
                continue
            return i
        i += 1
    raise ParseError('const header ' + h[:100])


def parse_body(fn):
    lines, a, b = fn.text
    norm = fn.norm
    B = Body()
    hdr = lines[a]
    B.args = []
    B.locals = {}
    B.debug = {}
    B.blocks = {}
    B.cleanup = set()
    if fn.kind == 'fn':
        hdr = hdr[3:]
        k = fn_name_end(hdr)
        rest = hdr[k:]
        j = scan_to(rest, 1, set())
        argtxt = rest[1:j]
        for p in split_top(argtxt):
            m = re.match(r'^(_\d+): (.*)$', p, re.S)
            loc = int(m.group(1)[1:])
            B.args.append(loc)
            B.locals[loc] = parse_type(m.group(2), norm)
        rett = rest[j + 1:].strip()
        assert rett.startswith('->')
        B.ret = parse_type(rett[2:].rstrip('{').strip(), norm)
        B.locals[0] = B.ret
    elif fn.kind == 'constval':
        t = lines[a][6:]
        k = scan_colon(t)
        t2 = t[k + 1:]
        j = t2.find(' = ')
        B.ret = parse_type(t2[:j], norm)
        B.constval = t2[j + 3:].rstrip(';')
        return B
    else:
        t = hdr.split(' ', 1)[1]
        k = scan_colon(t)
        t2 = t[k + 1:]
        B.ret = parse_type(t2[:t2.rfind(' = ')], norm)
        B.locals[0] = B.ret
    cur = None
    for ln in lines[a + 1:b]:
        s = ln.strip()
        if not s:
            continue
        if cur is None:
            m = re.match(r'^let (?:mut )?_(\d+): (.*);$', s)
            if m:
                B.locals[int(m.group(1))] = parse_type(m.group(2), norm)
                continue
            m = re.match(r'^debug (\S+) => (.*);$', s)
            if m:
                B.debug.setdefault(m.group(1), []).append(m.group(2))
                continue
        m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', s)
        if m:
            cur = int(m.group(1))
            B.blocks[cur] = []
            if m.group(2):
                B.cleanup.add(cur)
            continue
        if s == '}':
            cur = None
            continue
        if cur is not None:
            B.blocks[cur].append(s)
    B.parsed = {}
    return B


def parse_block(fn, bb):
    B = fn.body
    r = B.parsed.get(bb)
    if r is None:
        st = []
        for s in B.blocks[bb]:
            p = parse_stmt(s.rstrip(';'), fn.norm)
            if p is not None:
                st.append(p)
        r = st
        B.parsed[bb] = r
    return r


BINOPS = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked', 'Offset', 'Cmp'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_targets(s):
    """ '[return: bb1, unwind: bb5]' | 'bb3' | 'unwind continue' """
    s = s.strip()
    d = {}
    if s.startswith('['):
        for x in split_top(s[1:-1]):
            if x.startswith('unwind'):
                continue
            k, v = x.rsplit(':', 1)
            v = v.strip()
            if v.startswith('bb'):
                d[k.strip()] = int(v[2:])
    return d


def parse_stmt(s, norm):
    if s.startswith(('StorageLive', 'StorageDead', 'ConstEvalCounter', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'Retag', 'Coverage', 'nop', 'BackwardIncompatibleDropHint', 'Deinit')):
        return None
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s.startswith('resume') or s.startswith('terminate'):
        return ('resume',)
    if s.startswith('goto -> bb'):
        return ('goto', int(s[10:]))
    if s.startswith('switchInt('):
        j = scan_to(s, 10, set())
        op = parse_operand(s[10:j], norm)
        k = s.index('[', j)
        tg = []
        other = None
        for x in split_top(s[k + 1:s.rindex(']')]):
            a, b = x.split(':')
            b = int(b.strip()[2:])
            if a.strip() == 'otherwise':
                other = b
            else:
                tg.append((int(a), b))
        return ('switch', op, tg, other)
    if s.startswith('drop('):
        j = scan_to(s, 5, set())
        t = parse_targets(s[s.index('->', j) + 2:])
        return ('goto', t['return'], parse_place(s[5:j], norm))
    if s.startswith('assert('):
        j = scan_to(s, 7, set())
        parts = split_top(s[7:j])
        c = parts[0]
        neg = c.startswith('!')
        if neg:
            c = c[1:]
        t = parse_targets(s[s.index('->', j) + 2:])
        return ('assert', parse_operand(c, norm), neg, parts[1] if len(parts) > 1 else '', t['success'])
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        m = re.search(r'bb(\d+)', s)
        return ('goto', int(m.group(1)))
    if s.startswith('discriminant('):
        # set discriminant
        return ('unsupported', s)
    if s.startswith('copy_nonoverlapping') or s.startswith('assume('):
        return ('unsupported', s)
    # assignment or call
    j = find_assign(s)
    if j < 0:
        return ('unsupported', s)
    dest = parse_place(s[:j], norm)
    rhs = s[j + 3:]
    # reified fn pointers: `path as fn(..) -> .. (PointerCoercion(..))`
    if 'PointerCoercion(' in rhs and rhs.endswith(')') and not rhs.startswith(('copy ', 'move ', 'const ')):
        ka = find_as(rhs)
        if ka >= 0:
            m = re.match(r'^(.*) \((\w+(?:\(.*\))?)\)$', rhs[ka + 4:], re.S)
            if m:
                return ('assign', dest, ('cast', ('const', rhs[:ka]), parse_type(m.group(1), norm), m.group(2)))
    # call?
    k = scan_to(rhs, 0, {'->'})
    if k < len(rhs):
        call = rhs[:k].strip()
        tg = parse_targets(rhs[k + 2:])
        # callee(args)
        e = call.rindex(')') if call.endswith(')') else -1
        # find opening paren matching the final ')'
        p = match_open(call)
        callee = call[:p]
        args = [parse_operand(a, norm) for a in split_top(call[p + 1:-1])]
        return ('call', dest, callee, args, tg.get('return'))
    return ('assign', dest, parse_rvalue(rhs, norm))


def match_open(s):
    """position of '(' matching the last ')' """
    # forward scan recording depth-0 paren groups
    i = 0
    last = -1
    n = len(s)
    while i < n:
        j = scan_to(s, i, {'('})
        if j >= n:
            break
        last = j
        i = scan_to(s, j + 1, set()) + 1
    return last


def find_assign(s):
    i = 0
    while True:
        j = s.find(' = ', i)
        if j < 0:
            return -1
        if scan_to(s, 0, {'='}) >= j + 1:
            return j
        i = j + 1


def parse_place(s, norm):
    """-> ('place', local, [proj...]); proj: ('deref',) ('field',i,ty) ('variant',name) ('index',local) ('cindex',i,fromend) ('subslice',a,b,fromend)"""
    s = s.strip()
    loc, pr, rest = _place(s, norm)
    if rest.strip():
        raise ParseError('place rest %r in %r' % (rest, s))
    return ('place', loc, tuple(pr))


def _place(s, norm):
    if s.startswith('_'):
        m = re.match(r'^_(\d+)', s)
        loc = int(m.group(1))
        pr = []
        rest = s[m.end():]
    elif s.startswith('('):
        j = scan_to(s, 1, set())
        inner = s[1:j]
        rest = s[j + 1:]
        if inner.startswith('*'):
            loc, pr, r2 = _place(inner[1:], norm)
            if r2.strip():
                raise ParseError('deref ' + s)
            pr = pr + [('deref',)]
        else:
            loc, pr, r2 = _place(inner, norm)
            r2 = r2.strip()
            if r2.startswith('as '):
                v = r2[3:].strip()
                if v.startswith('subtype '):
                    pass
                else:
                    pr = pr + [('variant', v)]
            elif r2.startswith('.'):
                m = re.match(r'^\.(\d+): (.*)$', r2, re.S)
                pr = pr + [('field', int(m.group(1)), parse_type(m.group(2), norm))]
            elif r2 == '':
                pass
            else:
                raise ParseError('place ' + s)
    elif s.startswith('*'):
        loc, pr, rest = _place(s[1:], norm)
        return loc, pr + [('deref',)], rest
    else:
        raise ParseError('place ' + s)
    while rest.startswith('['):
        j = scan_to(rest, 1, set())
        ix = rest[1:j]
        rest = rest[j + 1:]
        if ix.startswith('_'):
            pr = pr + [('index', int(ix[1:]))]
        elif ' of ' in ix:
            a = ix.split(' of ')[0]
            if a.startswith('-'):
                pr = pr + [('cindex', int(a[1:]), True)]
            else:
                pr = pr + [('cindex', int(a), False)]
        else:
            a, b = ix.split(':')
            fe = b.startswith('-')
            pr = pr + [('subslice', int(a or 0), int(b.lstrip('-') or 0) if b else 0, fe or b == '')]
    return loc, pr, rest


def parse_operand(s, norm):
    s = s.strip()
    for p in ('no_retag copy ', 'no_retag move ', 'copy ', 'move '):
        if s.startswith(p):
            return ('use', parse_place(s[len(p):], norm))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if s.startswith('_') or s.startswith('('):
        return ('use', parse_place(s, norm))
    if s.startswith('RuntimeChecks') or s == 'UbChecks' :
        return ('const', 'false')
    return ('const', s)


def parse_rvalue(s, norm):
    s = s.strip()
    # cast:  OPERAND as TYPE (Kind)
    if s.startswith(('copy ', 'move ', 'const ', 'no_retag ')):
        k = find_as(s)
        if k >= 0:
            m = re.match(r'^(.*) \((\w+(?:\(.*\))?)\)$', s[k + 4:], re.S)
            if m:
                return ('cast', parse_operand(s[:k], norm), parse_type(m.group(1), norm), m.group(2))
            raise ParseError('cast ' + s)
        return ('operand', parse_operand(s, norm))
    if s.startswith('&raw const (fake) '):
        return ('ref', False, parse_place(s[18:], norm))
    if s.startswith('&raw const '):
        return ('ref', False, parse_place(s[11:], norm))
    if s.startswith('&raw mut '):
        return ('ref', True, parse_place(s[9:], norm))
    if s.startswith('&mut '):
        return ('ref', True, parse_place(s[5:], norm))
    if s.startswith('&'):
        t = s[1:].strip()
        if t.startswith('two_phase '):
            t = t[10:]
        if t.startswith('fake '):
            return ('opaque', s)
        return ('ref', False, parse_place(t, norm))
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[13:-1], norm))
    if s.startswith('Len('):
        return ('len', parse_place(s[4:-1], norm))
    m = re.match(r'^(\w+)\(', s)
    if m and m.group(1) in BINOPS and s.endswith(')'):
        ops = split_top(s[m.end():-1])
        return ('bin', m.group(1), parse_operand(ops[0], norm), parse_operand(ops[1], norm))
    if m and m.group(1) in UNOPS and s.endswith(')'):
        return ('un', m.group(1), parse_operand(s[m.end():-1], norm))
    if m and m.group(1) in ('SizeOf', 'AlignOf', 'ShallowInitBox', 'CopyForDeref'):
        if m.group(1) == 'CopyForDeref':
            return ('operand', ('use', parse_place(s[m.end():-1], norm)))
        return ('opaque', s)
    if s.startswith('('):
        return ('tuple', [parse_operand(x, norm) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        j = scan_to(inner, 0, {';'})
        if j < len(inner):
            return ('repeat', parse_operand(inner[:j], norm), inner[j + 1:].strip())
        return ('array', [parse_operand(x, norm) for x in split_top(inner)])
    if s.startswith('{closure@') or s.startswith('{coroutine'):
        j = scan_to(s, 1, set())
        cid = s[:j + 1]
        rest = s[j + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for x in split_top(rest[1:-1]):
                k = x.index(':')
                caps.append(parse_operand(x[k + 1:], norm))
        return ('closure', cid, caps)
    # ADT aggregates
    j = scan_to(s, 0, {'(', '{'})
    # struct literal has ' {'
    head = s[:j].strip()
    base, gargs = split_path_generics(head)
    targs = tuple(parse_type(a, norm) for a in gargs if not a.startswith("'") and not re.match(r'^\d', a))
    base = norm.path(base)
    if j >= len(s):
        return ('adt', base, targs, None, [])
    if s[j] == '(':
        return ('adt', base, targs, None, [parse_operand(x, norm) for x in split_top(s[j + 1:-1])])
    names = []
    ops = []
    for x in split_top(s[j + 1:s.rindex('}')]):
        k = x.index(':')
        names.append(x[:k].strip())
        ops.append(parse_operand(x[k + 1:], norm))
    return ('adt', base, targs, names, ops)
