"""Value terms of the analysis: hash-consed expressions over symbols, uninterpreted functions,
arithmetic, gates (ite) and index-bound summaries (sum, prod, ...).

Equality of two terms is decided by random interpretation (Gulwani & Necula, "Global value
numbering using random interpretation", POPL 2004), in two algebras:
  * GF lanes    - reals are elements of GF(2^61-1), atoms and uninterpreted functions get random
                  values, summaries are evaluated as random quadratures.  Agreement on all lanes
                  proves the identity (error probability below 2^-50 per lane) for every length,
                  content and branch outcome.
  * real lanes  - reals are floats, summaries range over small index domains.  Disagreement there
                  certifies that two terms which GF lanes could not identify really differ.
No code of the analysed crate is executed: both only look at value terms computed from source.
"""
from fractions import Fraction
import struct, math, zlib, itertools, decimal, time

sys_P = (1 << 61) - 1
P = sys_P

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', '_l', '__weakref__')
    def __repr__(self): return show(self)

_table = {}
_ids = itertools.count(1)

def mk(op, args, sort):
    k = (op, tuple(a.id if isinstance(a, T) else ('#', a) for a in args), sort)
    t = _table.get(k)
    if t is None:
        t = T(); t.op = op; t.args = tuple(args); t.sort = sort; t.id = next(_ids); t._l = {}
        fv = frozenset()
        for a in args:
            if isinstance(a, T): fv |= a.fv
        if op == 'bv': fv = frozenset([t])
        elif op in BINDERS:
            fv = frozenset()
            nb = BINDERS[op]
            # args: (n, bv..., body...)
            for a in args:
                if isinstance(a, T): fv |= a.fv
            fv -= frozenset(args[1:1 + nb])
            fv |= args[0].fv if isinstance(args[0], T) else frozenset()
        elif op == 'fold':
            n, k_, accs, inits, steps, which = args[0], args[1], args[2], args[3], args[4], args[5]
            fv = n.fv
            for a in inits: fv |= a.fv
            s = frozenset()
            for a in steps: s |= a.fv
            fv |= s - frozenset([k_]) - frozenset(accs)
        t.fv = fv
        _table[k] = t
    return t

# binder ops: args = (n, k, body...)
BINDERS = {'sum': 1, 'prod': 1, 'any': 1, 'first': 1, 'maxr': 1, 'minr': 1, 'nth': 1}

def mkfold(n, k, accs, inits, steps, which):
    key = ('fold', n.id, k.id, tuple(a.id for a in accs), tuple(a.id for a in inits), tuple(a.id for a in steps), which)
    t = _table.get(key)
    if t is None:
        t = T(); t.op = 'fold'; t.args = (n, k, tuple(accs), tuple(inits), tuple(steps), which)
        t.sort = inits[which].sort; t.id = next(_ids); t._l = {}
        fv = n.fv
        for a in inits: fv |= a.fv
        s = frozenset()
        for a in steps: s |= a.fv
        t.fv = fv | (s - frozenset([k]) - frozenset(accs))
        _table[key] = t
    return t

_fresh = itertools.count(1)
def bv(sort, hint='k'): return mk('bv', ('%s%d' % (hint, next(_fresh)),), sort)
def const(v, sort='r'):
    return mk('const', (Fraction(v),), sort)
def I(v): return const(v, 'i')
def R(v): return const(Fraction(str(v)) if isinstance(v, float) else v, 'r')
NEGINF = mk('inf', (-1,), 'r')
POSINF = mk('inf', (1,), 'r')
NAN = mk('nan', (), 'r')
TRUE = mk('true', (), 'b')
FALSE = mk('false', (), 'b')
def B(b): return TRUE if b else FALSE
def sym(name, sort, dom='any', bound=None):
    """dom: distribution hint for real lanes; bound: for 'i', the symbol is in [0, bound)."""
    return mk('sym', (name, dom) + ((bound,) if bound is not None else ()), sort)
def app(f, args, sort, dom='any'): return mk('app', (f, dom) + tuple(args), sort)
_unk = {}
def unk(reason): return mk('unk', (reason,), 'u')

def is_const(t): return t.op == 'const'
def has_unk(t, _memo={}):
    r = _memo.get(t.id)
    if r is None:
        r = t.op == 'unk' or any(has_unk(a) for a in subterms(t))
        _memo[t.id] = r
    return r
def subterms(t):
    for a in t.args:
        if isinstance(a, T): yield a
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, T): yield x
def unk_reasons(t, out=None, seen=None):
    out = set() if out is None else out; seen = set() if seen is None else seen
    if t.id in seen: return out
    seen.add(t.id)
    if t.op == 'unk': out.add(t.args[0])
    for a in subterms(t): unk_reasons(a, out, seen)
    return out
def occurs(t, pred, _s=None):
    seen = set() if _s is None else _s
    if t.id in seen: return False
    seen.add(t.id)
    if pred(t): return True
    return any(occurs(a, pred, seen) for a in subterms(t))

def usort(*ts):
    for t in ts:
        if t.sort == 'u': return t
    return None

def add(*ts):
    u = usort(*ts)
    if u is not None: return u
    sort = 'r' if any(t.sort == 'r' for t in ts) else 'i'
    flat = []; c = Fraction(0); inf = None
    st = list(ts)[::-1]
    while st:
        t = st.pop()
        if t.op == 'add': st.extend(reversed(t.args))
        elif t.op == 'const': c += t.args[0]
        else: flat.append(t)
    # combine coefficients of identical terms
    co = {}
    order = []
    for t in flat:
        k, b = coeff(t)
        if b.id not in co: co[b.id] = [Fraction(0), b]; order.append(b.id)
        co[b.id][0] += k
    out = []
    for i in order:
        k, b = co[i]
        if k == 0 and b.op not in ('inf', 'nan'): continue
        out.append(b if k == 1 else mul(const(k, sort), b))
    if c != 0 or not out: out.append(const(c, sort))
    if len(out) == 1: return out[0] if out[0].sort == sort else out[0]
    out.sort(key=lambda t: t.id)
    return mk('add', tuple(out), sort)
def coeff(t):
    if t.op == 'mul' and t.args[0].op == 'const':
        rest = t.args[1:]
        return t.args[0].args[0], (rest[0] if len(rest) == 1 else mk('mul', rest, t.sort))
    return Fraction(1), t
def mul(*ts):
    u = usort(*ts)
    if u is not None: return u
    sort = 'r' if any(t.sort == 'r' for t in ts) else 'i'
    flat = []; c = Fraction(1)
    st = list(ts)[::-1]
    while st:
        t = st.pop()
        if t.op == 'mul': st.extend(reversed(t.args))
        elif t.op == 'const': c *= t.args[0]
        else: flat.append(t)
    if c == 0 and sort == 'i': return const(0, sort)
    if c == 0 and not any(occurs(t, lambda x: x.op in ('div', 'inf', 'ln', 'recip')) for t in flat): return const(0, sort)
    flat.sort(key=lambda t: t.id)
    if not flat: return const(c, sort)
    if c == 1 and len(flat) == 1: return flat[0]
    if c != 1 and len(flat) == 1 and flat[0].op == 'add':
        return add(*[mul(const(c, sort), x) for x in flat[0].args])
    if c != 1: flat = [const(c, sort)] + flat
    return mk('mul', tuple(flat), sort)
def neg(t):
    if t.op == 'inf': return mk('inf', (-t.args[0],), 'r')
    return mul(const(-1, t.sort if t.sort in 'ir' else 'r'), t)
def sub(a, b): return add(a, neg(b))
def div(a, b):
    u = usort(a, b)
    if u is not None: return u
    if b.op == 'const' and b.args[0] != 0:
        return mul(const(1 / b.args[0], 'r'), a)
    return mk('div', (a, b), 'r')
def idiv(op, a, b):
    "op: tdiv (truncating), trem, ediv, erem"
    u = usort(a, b)
    if u is not None: return u
    if b.op == 'const' and b.args[0] == 1:
        return a if op in ('tdiv', 'ediv') else I(0)
    if a.op == 'const' and b.op == 'const' and b.args[0] != 0:
        return I(_idiv(op, int(a.args[0]), int(b.args[0])))
    return mk(op, (a, b), 'i')
def _idiv(op, x, y):
    if y == 0: raise Skip()
    if op == 'tdiv':
        q = abs(x) // abs(y); return q if (x < 0) == (y < 0) else -q
    if op == 'trem': return x - y * _idiv('tdiv', x, y)
    r = x % abs(y)
    if op == 'erem': return r
    if op == 'ediv': return (x - r) // y
    raise AssertionError(op)
def ipow(a, n):
    "a to an integer power (term n of sort i)"
    u = usort(a, n)
    if u is not None: return u
    if n.op == 'const':
        k = int(n.args[0])
        if k == 0: return const(1, a.sort)
        if k == 1: return a
        if a.op == 'const' and (k > 0 or a.args[0] != 0): return const(a.args[0] ** k, a.sort)
        if 0 < k <= 16: return mul(*([a] * k))
    return mk('ipow', (a, n), a.sort)
def fn1(f, a, sort='r'):
    u = usort(a)
    if u is not None: return u
    if a.op == 'const':
        v = a.args[0]
        if f == 'abs': return const(abs(v), a.sort)
        if f == 'sqrt' and v in (0, 1): return a
        if f == 'exp' and v == 0: return R(1)
        if f == 'ln' and v == 1: return R(0)
        if f == 'cos' and v == 0: return R(1)
        if f in ('floor', 'ceil', 'round', 'trunc') and v.denominator == 1: return a
    if f == 'abs' and a.op == 'abs': return a
    if f == 'abs': sort = a.sort
    if f == 'i2r':
        if a.op == 'const': return const(a.args[0], 'r')
        sort = 'r'
    return mk(f, (a,), sort)
def i2r(a): return fn1('i2r', a) if a.sort == 'i' else a
def max2(a, b):
    u = usort(a, b)
    if u is not None: return u
    if a is b: return a
    if a is NEGINF: return b
    if b is NEGINF: return a
    if a.op == 'const' and b.op == 'const': return a if a.args[0] >= b.args[0] else b
    if a.sort == 'i' and b.sort == 'i':
        if nonneg(sub(a, b)): return a
        if nonneg(sub(b, a)): return b
    # |x| = max(x, -x)
    if a is neg(b): return fn1('abs', a)
    if a.id > b.id: a, b = b, a
    return mk('max', (a, b), a.sort)
def min2(a, b):
    u = usort(a, b)
    if u is not None: return u
    if a is b: return a
    if a is POSINF: return b
    if b is POSINF: return a
    if a.op == 'const' and b.op == 'const': return a if a.args[0] <= b.args[0] else b
    if a.sort == 'i' and b.sort == 'i':
        if nonneg(sub(a, b)): return b
        if nonneg(sub(b, a)): return a
    if a.id > b.id: a, b = b, a
    return mk('min', (a, b), a.sort)
def not_(a):
    if a.sort == 'u': return a
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'b')
def and_(*ts):
    out = []
    st = list(ts)[::-1]
    while st:
        t = st.pop()
        if t is FALSE: return FALSE
        if t is TRUE: continue
        if t.op == 'and': st.extend(reversed(t.args)); continue
        if t not in out: out.append(t)
    u = usort(*out)
    if u is not None: return u
    for t in out:
        if not_(t) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', tuple(out), 'b')
def or_(*ts): return not_(and_(*[not_(t) for t in ts]))
def lt(a, b):
    u = usort(a, b)
    if u is not None: return u
    if a is b: return FALSE
    d = sub(b, a)
    if d.op == 'const': return B(d.args[0] > 0)
    if a.sort == 'i' and b.sort == 'i':
        # lengths and indices are non-negative
        if b.op == 'const' and b.args[0] <= 0 and nonneg(a): return FALSE
        if a.op == 'const' and a.args[0] < 0 and nonneg(b): return TRUE
        if b.op == 'const' and b.args[0] == 1 and nonneg(a): return eq(a, I(0))
        if nonneg(d) and d.op == 'add' and any(x.op == 'const' and x.args[0] > 0 for x in d.args): return TRUE
        if nonneg(sub(a, b)): return FALSE
        if a.op == 'const' and a.args[0] == 0 and nonneg(b): return not_(eq(b, I(0)))
    else:
        if is_nonneg_real(a) and b.op == 'const' and b.args[0] <= 0: return FALSE
        if a.op == 'const' and a.args[0] == 0 and is_nonneg_real(b): return not_(eq(b, R(0)))
        if a.op == 'const' and a.args[0] < 0 and is_nonneg_real(b): return TRUE
    return mk('lt', (a, b), 'b')
def le(a, b):
    return not_(lt(b, a))
def nonneg(t):
    if t.op == 'const': return t.args[0] >= 0
    if t.op == 'sym': return t.sort == 'i' and t.args[1] != 'int'
    if t.op == 'app': return t.sort == 'i' and t.args[1] != 'int'
    if t.op == 'bv': return t.sort == 'i' and not t.args[0].startswith('acc')
    if t.op in ('add', 'mul', 'max', 'min'): return all(nonneg(a) for a in t.args)
    if t.op in ('sum', 'prod'): return nonneg(t.args[2])
    if t.op in ('trem', 'tdiv'): return nonneg(t.args[0]) and nonneg(t.args[1])
    if t.op in ('erem', 'first', 'nth'): return True
    if t.op == 'ite': return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == 'ipow': return nonneg(t.args[0])
    return False
def is_nonneg_real(t):
    if t.op == 'const': return t.args[0] >= 0
    if t.op in ('abs', 'sqrt', 'exp'): return True
    if t.op == 'i2r': return nonneg(t.args[0])
    if t.op == 'mul':
        cnt = {}
        for a in t.args: cnt[a.id] = cnt.get(a.id, 0) + 1
        return all(is_nonneg_real(a) or cnt[a.id] % 2 == 0 for a in t.args)
    if t.op in ('add', 'min', 'div'): return all(is_nonneg_real(a) for a in t.args)
    if t.op == 'max': return any(is_nonneg_real(a) for a in t.args)
    if t.op in ('sum', 'prod'): return is_nonneg_real(t.args[2])
    if t.op == 'ite': return is_nonneg_real(t.args[1]) and is_nonneg_real(t.args[2])
    return False
def eq(a, b):
    u = usort(a, b)
    if u is not None: return u
    if a is b: return TRUE
    if a.sort == 'b' and b.sort == 'b':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort in 'ir' and b.sort in 'ir':
        d = sub(a, b)
        if d.op == 'const': return B(d.args[0] == 0)
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'b')
def ite(c, a, b):
    if c.sort == 'u': return a if a is b else c
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    u = usort(a, b)
    if u is not None: return u
    if a.sort == 'b' and b.sort == 'b':
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    # compare-and-select is max/min
    if c.op == 'lt':
        x, y = c.args
        if a is y and b is x: return max2(x, y)
        if a is x and b is y: return min2(x, y)
        if b is neg(a) and a.sort == 'r':
            # x<0 ? -x : x
            if y.op == 'const' and y.args[0] == 0 and b is x: return fn1('abs', x)
            if x.op == 'const' and x.args[0] == 0 and a is y: return fn1('abs', y)
    if a.sort != b.sort and a.sort in 'ir' and b.sort in 'ir':
        a, b = i2r(a), i2r(b)
    return mk('ite', (c, a, b), a.sort)

def is_single_point(body, k):
    """If body (in k) is ite(k == j and g, e, neutral) return (j, g, e, neutral)."""
    if body.op != 'ite': return None
    c, a, b = body.args
    if b.fv & frozenset([k]): return None
    cs = list(c.args) if c.op == 'and' else [c]
    for x in cs:
        if x.op == 'eq':
            j = solve(x.args[0], x.args[1], k)
            if j is not None:
                return j, and_(*[y for y in cs if y is not x]), a, b
    return None
def solve(l, r, k):
    "solve l == r for k (k occurs once, linearly with coefficient +-1)"
    d = sub(l, r)
    parts = d.args if d.op == 'add' else (d,)
    co = 0; rest = []
    for p in parts:
        if k in p.fv:
            kk, b = coeff(p)
            if b is not k or abs(kk) != 1: return None
            co += kk
        else: rest.append(p)
    if co == 0: return None
    s = add(*rest) if rest else I(0)
    return neg(s) if co == 1 else s
def sum_(n, k, body):
    if body.sort == 'u': return body
    if n.op == 'unk': return n
    if body.op == 'const' and body.args[0] == 0: return body
    if n.op == 'const' and n.args[0] == 0: return const(0, body.sort)
    if k not in body.fv:
        return mul(i2r(n) if body.sort == 'r' else n, body)
    sp = is_single_point(body, k)
    if sp and sp[3].op == 'const' and sp[3].args[0] == 0:
        j, g, e, z = sp
        return ite(and_(le(I(0), j), lt(j, n), subst(g, {k: j})), subst(e, {k: j}), z)
    return mk('sum', (n, k, body), body.sort)
def prod_(n, k, body):
    if body.sort == 'u': return body
    if n.op == 'unk': return n
    if body.op == 'const' and body.args[0] == 1: return body
    if k not in body.fv: return ipow(body, n)
    return mk('prod', (n, k, body), body.sort)
def any_(n, k, body):
    if body.sort == 'u': return body
    if n.op == 'unk': return n
    if body is FALSE: return FALSE
    if k not in body.fv: return and_(body, lt(I(0), n))
    cs = list(body.args) if body.op == 'and' else [body]
    for x in cs:
        if x.op == 'eq':
            j = solve(x.args[0], x.args[1], k)
            if j is not None:
                g = and_(*[y for y in cs if y is not x])
                return and_(le(I(0), j), lt(j, n), subst(g, {k: j}))
    return mk('any', (n, k, body), 'b')
def all_(n, k, body): return not_(any_(n, k, not_(body)))
def maxr(n, k, guard, body, init):
    "maximum of init and body(k) over k<n with guard(k)"
    for x in (n, guard, body, init):
        if x.sort == 'u': return x
    return mk('maxr', (n, k, guard, body, init), body.sort)
def minr(n, k, guard, body, init):
    for x in (n, guard, body, init):
        if x.sort == 'u': return x
    return mk('minr', (n, k, guard, body, init), body.sort)
def first(n, k, cond):
    "smallest k<n with cond(k), n if there is none"
    if cond.sort == 'u': return cond
    if cond is FALSE: return n
    if cond is TRUE: return I(0)
    return mk('first', (n, k, cond), 'i')

def nth(n, k, guard, j):
    "the j-th (from 0) k<n with guard(k), in order"
    for x in (n, guard, j):
        if x.sort == 'u': return x
    if k not in guard.fv: return j
    if guard.op == 'not' and guard.args[0].op == 'eq':
        x, y = guard.args[0].args
        if y is k: x, y = y, x
        if x is k and k not in y.fv: return ite(lt(j, y), j, add(j, I(1)))
    if guard.op == 'not' and guard.args[0].op == 'lt' and guard.args[0].args[0] is k and k not in guard.args[0].args[1].fv and nonneg(guard.args[0].args[1]):
        return add(j, guard.args[0].args[1])
    if guard.op == 'lt' and guard.args[0] is k and k not in guard.args[1].fv: return j
    if guard.op == 'lt' and guard.args[1] is k and k not in guard.args[0].fv and nonneg(guard.args[0]): return add(j, guard.args[0], I(1))
    return mk('nth', (n, k, guard, j), 'i')

REB = {'add': add, 'mul': mul, 'div': div, 'ipow': ipow, 'max': max2, 'min': min2, 'not': not_,
       'and': and_, 'lt': lt, 'eq': eq, 'ite': ite, 'sum': sum_, 'prod': prod_, 'any': any_, 'first': first,
       'maxr': maxr, 'minr': minr, 'nth': nth}
def rebuild(t, args):
    op = t.op
    if op in REB: return REB[op](*args)
    if op in ('tdiv', 'trem', 'ediv', 'erem'): return idiv(op, *args)
    if op in FN1: return fn1(op, args[0], t.sort)
    return mk(op, args, t.sort)
FN1 = ('sqrt', 'exp', 'ln', 'cos', 'sin', 'abs', 'floor', 'ceil', 'round', 'trunc', 'i2r', 'r2i', 'tan', 'sinh',
       'cosh', 'tanh', 'signum')

def subst(t, m):
    if not m: return t
    memo = {}
    return _subst(t, m, memo)
def _subst(t, m, memo):
    if not any(v in m for v in t.fv): return t
    r = memo.get(t.id)
    if r is not None: return r
    if t.op == 'bv': r = m.get(t, t)
    elif t.op in BINDERS or t.op == 'fold':
        bound = [t.args[1]] + (list(t.args[2]) if t.op == 'fold' else [])
        inner = {v: x for v, x in m.items() if v not in bound and v in t.fv}
        clash = [b for b in bound if any(b in x.fv for x in inner.values())]
        if clash:
            ren = {b: bv(b.sort, 'acc' if b.args[0].startswith('acc') else 'k') for b in clash}
            inner.update(ren)
            bound = [ren.get(b, b) for b in bound]
        memo2 = {}
        n = _subst(t.args[0], m, memo)
        if t.op == 'fold':
            inits = [_subst(a, m, memo) for a in t.args[3]]
            steps = [_subst(a, inner, memo2) for a in t.args[4]]
            r = mkfold(n, bound[0], bound[1:], inits, steps, t.args[5])
        elif t.op in ('maxr', 'minr'):
            r = REB[t.op](n, bound[0], _subst(t.args[2], inner, memo2), _subst(t.args[3], inner, memo2), _subst(t.args[4], m, memo))
        elif t.op == 'nth': r = nth(n, bound[0], _subst(t.args[2], inner, memo2), _subst(t.args[3], m, memo))
        else:
            r = REB[t.op](n, bound[0], _subst(t.args[2], inner, memo2))
    else:
        r = rebuild(t, tuple(_subst(a, m, memo) if isinstance(a, T) else a for a in t.args))
    memo[t.id] = r
    return r

def show(t, d=0):
    if not isinstance(t, T): return str(t)
    o = t.op; a = t.args
    if d > 9: return '..'
    s = lambda x: show(x, d + 1)
    if o == 'const': return str(a[0]) if a[0].denominator == 1 else ('%g' % float(a[0]))
    if o in ('sym', 'bv'): return a[0]
    if o == 'unk': return 'unknown<%s>' % a[0]
    if o == 'app': return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[2:]))
    if o == 'add': return '(' + ' + '.join(s(x) for x in a) + ')'
    if o == 'mul': return '*'.join(s(x) for x in a)
    if o == 'div': return '%s/(%s)' % (s(a[0]), s(a[1]))
    if o == 'lt': return '%s<%s' % (s(a[0]), s(a[1]))
    if o == 'eq': return '%s==%s' % (s(a[0]), s(a[1]))
    if o == 'and': return '(' + ' & '.join(s(x) for x in a) + ')'
    if o == 'not': return '!' + s(a[0])
    if o == 'ite': return 'if(%s, %s, %s)' % tuple(s(x) for x in a)
    if o in ('sum', 'prod', 'any', 'first'): return '%s[%s<%s] %s' % (o, a[1].args[0], s(a[0]), s(a[2]))
    if o == 'nth': return 'nth[%s<%s if %s](%s)' % (a[1].args[0], s(a[0]), s(a[2]), s(a[3]))
    if o in ('maxr', 'minr'): return '%s[%s<%s if %s] %s from %s' % (o, a[1].args[0], s(a[0]), s(a[2]), s(a[3]), s(a[4]))
    if o == 'fold': return 'fold#%d[%s<%s; %s:=%s; step %s]' % (a[5], a[1].args[0], s(a[0]), ','.join(s(x) for x in a[2]), ','.join(s(x) for x in a[3]), ','.join(s(x) for x in a[4]))
    if o == 'inf': return '-inf' if a[0] < 0 else 'inf'
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))

# ------------------------------------------------------------------------------- evaluation

class Skip(Exception): pass

def mix(*xs):
    h = 0x9E3779B97F4A7C15
    for x in xs:
        if isinstance(x, str): x = zlib.crc32(x.encode()) | (len(x) << 40)
        elif isinstance(x, bool): x = 3 if x else 5
        elif isinstance(x, float):
            x = 7 if x != x else (zlib.crc32(('%.8e' % (x + 0.0)).encode()) if abs(x) > 1e-9 else 11)
        elif isinstance(x, tuple): x = mix(*x)
        elif isinstance(x, decimal.Decimal): x = zlib.crc32(('%.20e' % (x + 0)).encode()) | 13 << 40
        y = x >> 64; m = 0x1000193
        while y not in (0, -1):
            h ^= ((y & 0xFFFFFFFFFFFFFFFF) * m) & 0xFFFFFFFFFFFFFFFF
            y >>= 64; m = m * 0x1000193 + 2
        h ^= (x & 0xFFFFFFFFFFFFFFFF) + (1 if x < 0 else 0) * 0x100000001b3
        h = (h * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 29
        h = (h * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 32
    return h

class Lane:
    def __init__(self, seed, overrides=None):
        self.seed = seed; self.cache = {}; self.ov = overrides or {}
        self.budget = 400000
        self.pooled = False; self.ipool = self.rpool = ()
    def direct_at(self, pool, cap):
        "sizes, indices and values near the constants of the terms compared"
        if (self.ipool, self.rpool) != pool or self.cap != cap: self.cache = {}; self.cap = cap; self.ipool, self.rpool = pool
    def near(self, hh, lo):
        "an integer near one of the constants, or None"
        if not self.ipool or (hh >> 20) % 3 == 0 or self.thin and hh >> 16 & 3: return None
        v = self.ipool[(hh >> 24) % len(self.ipool)]; e = hh >> 44 & 7
        v = v * 2 + 1 if e == 7 and v < 10 ** 6 else v + v // 2 if e == 6 and v < 10 ** 6 else v + e % 4 - 1
        return v if v >= lo else None
    def below(self, hh, bound):
        "an index below bound"
        c = (hh >> 36) & 7
        if c == 0: return 0
        if c == 1: return bound - 1
        if self.ipool and c < 6:
            v = self.ipool[(hh >> 24) % len(self.ipool)] + (hh >> 44) % 3 - 1
            if 0 <= v < bound: return v
        return hh % bound
    def run(self, t): return self.ev(t, {})
    def ev(self, t, env):
        if t.fv:
            try: key = (t.id,) + tuple((v.id, env[v]) for v in sorted(t.fv, key=lambda v: v.id))
            except KeyError: raise Skip('unbound')
        else: key = t.id
        c = self.cache
        if key in c:
            r = c[key]
            if r is Skip: raise Skip()
            return r
        self.budget -= 1
        if self.budget < 0: raise Skip('budget')
        try: r = self.ev1(t, env)
        except Skip as x:
            if not x.args or x.args[0] != 'budget': c[key] = Skip
            raise
        c[key] = r
        return r
    def h(self, *xs): return mix(self.seed, *xs)
    def ev1(self, t, env):
        o, a = t.op, t.args
        E = self.ev
        if o == 'const': return self.real(a[0]) if t.sort == 'r' else int(a[0])
        if o == 'bv': return env[t]
        if o == 'true': return True
        if o == 'false': return False
        if o == 'sym': return self.symv(t, env)
        if o == 'app': return self.appv(t, [E(x, env) for x in a[2:]])
        if o == 'not': return not E(a[0], env)
        if o == 'and':
            for x in a:
                if not E(x, env): return False
            return True
        if o == 'ite':
            return self.coerce(E(a[1] if E(a[0], env) else a[2], env), a[1] if E(a[0], env) else a[2], t)
        if o == 'add':
            if t.sort == 'i': return sum(E(x, env) for x in a)
            return self.radd([self.coerce(E(x, env), x, t) for x in a])
        if o == 'mul':
            if t.sort == 'i':
                r = 1
                for x in a: r *= E(x, env)
                return r
            return self.rmul([self.coerce(E(x, env), x, t) for x in a])
        if o in ('tdiv', 'trem', 'ediv', 'erem'): return _idiv(o, E(a[0], env), E(a[1], env))
        if o == 'lt':
            x, y = E(a[0], env), E(a[1], env)
            if a[0].sort == 'i' and a[1].sort == 'i': return x < y
            return self.rlt(self.coerce(x, a[0], None), self.coerce(y, a[1], None))
        if o == 'eq':
            x, y = E(a[0], env), E(a[1], env)
            if a[0].sort == 'r' or a[1].sort == 'r': return self.req(self.coerce(x, a[0], None), self.coerce(y, a[1], None))
            return x == y
        if o in ('max', 'min'):
            x, y = E(a[0], env), E(a[1], env)
            if t.sort == 'i': return max(x, y) if o == 'max' else min(x, y)
            return self.rmax(x, y) if o == 'max' else self.rmin(x, y)
        if o == 'ipow':
            x, n = E(a[0], env), E(a[1], env)
            if t.sort == 'i': 
                if n < 0: raise Skip()
                if n * max(1, abs(x).bit_length()) > 4096: raise Skip('big')
                return x ** n
            return self.rpow(x, n)
        if o == 'i2r': return self.fromint(E(a[0], env))
        if o == 'div': return self.rdiv(self.coerce(E(a[0], env), a[0], t), self.coerce(E(a[1], env), a[1], t))
        if o in ('sum', 'prod', 'any', 'first', 'maxr', 'minr', 'nth'): return self.binder(t, env)
        if o == 'fold': return self.fold(t, env)
        if o == 'inf': return self.inf(a[0])
        if o == 'unk': raise Skip('unknown')
        if o == 'abs' and t.sort == 'i': return abs(E(a[0], env))
        if o == 'npow2': return 1 << max(0, E(a[0], env) - 1).bit_length()
        return self.rfn(o, [self.coerce(E(x, env), x, t) if x.sort in 'ir' and t.sort == 'r' and x.sort == 'i' and o != 'i2r' else E(x, env) for x in a], t)
    def coerce(self, v, t, like):
        if t.sort == 'i' and (like is None or like.sort == 'r'): return self.fromint(v)
        return v

    def points(self, n, env):
        "index samples with weights for a summary over [0,n): the ends and random interior points"
        if n <= 0: return []
        if n <= self.direct:
            if n > 200000: raise Skip()
            return [(i, 1) for i in range(n)]
        d = len(env)
        ks = [0] + sorted({1 + self.h('pt', d, n, i) % (n - 2) for i in range(2)} | {c for c in self.ipool if 0 < c < n - 1}) + [n - 1]
        ws = [1 + self.h('w', i, n, d) % max(1, n // 4) for i in range(len(ks) - 1)]
        return list(zip(ks, ws + [n - sum(ws)]))
    def binder(self, t, env):
        o, a = t.op, t.args
        n = self.ev(a[0], env); k = a[1]
        pts = self.points(n, env)
        env = dict(env)
        def at(i, b):
            env[k] = i
            return self.ev(b, env)
        if o == 'sum':
            if t.sort == 'i': return sum(w * at(i, a[2]) for i, w in pts)
            return self.radd([self.rmul([self.fromint(w), at(i, a[2])]) if w != 1 else at(i, a[2]) for i, w in pts])
        if o == 'prod':
            if t.sort == 'i':
                r = 1
                for i, w in pts:
                    if w > 64: raise Skip()
                    r *= at(i, a[2]) ** w
                return r
            return self.rmul([self.rpow(at(i, a[2]), w) if w != 1 else at(i, a[2]) for i, w in pts])
        if o == 'any': return any(at(i, a[2]) for i, w in pts)
        if o == 'first':
            for i, w in pts:
                if at(i, a[2]): return i
            return n
        outer = dict(env); outer.pop(k, None)
        if o == 'nth':
            j = self.ev(a[3], outer)
            if j < 0: raise Skip()
            for i, w in pts:
                if at(i, a[2]):
                    if j < w: return i
                    j -= w
            return n
        r = self.ev(a[4], outer)
        if t.sort == 'r': r = self.coerce(r, a[4], t)
        for i, w in pts:
            if at(i, a[2]):
                v = at(i, a[3])
                if t.sort == 'i': r = max(r, v) if o == 'maxr' else min(r, v)
                else: r = self.rmax(r, v) if o == 'maxr' else self.rmin(r, v)
        return r
    def fold(self, t, env):
        n, k, accs, inits, steps, which = t.args
        nn = self.ev(n, env)
        vals = [self.ev(x, env) for x in inits]
        env = dict(env)
        for i, w in self.points(nn, env):
            env[k] = i
            for x, v in zip(accs, vals): env[x] = v
            vals = [self.ev(s, env) for s in steps]
        return vals[which]

class GF(Lane):
    direct = 5
    small = False
    def real(self, f):
        return f.numerator % P * pow(f.denominator % P, P - 2, P) % P
    def symv(self, t, env):
        a = t.args
        if a[0] in self.ov: return self.ov[a[0]]
        hh = self.h('sym', a[0])
        return self.atom(t.sort, hh, a[1], self.ev(a[2], env) if len(a) > 2 else None)
    def atom(self, sort, hh, dom, bound=None):
        if sort == 'r': return hh % P
        if sort == 'i':
            if bound is not None:
                if bound <= 0: raise Skip()
                return self.below(hh, bound)
            if dom == 'vast': return 10 ** 9 + hh % 2 ** 40
            if dom == 'hash': return hh & 2 ** 64 - 1
            if dom == 'few': return 1 + hh % 4
            if self.ipool:
                v = self.near(hh, 1 if dom == 'pos' else 1000 if dom == 'large' else 0)
                if v is not None and (dom != 'order' or v < 256): return -v if dom == 'int' and hh >> 50 & 1 else v
            if dom == 'int': return hh % (1 << 20) - (1 << 19)
            if dom == 'small': return hh % 13
            if dom == 'count': return hh % 13 if hh >> 40 & 3 else hh >> 8 & (63 if hh >> 41 & 4 else 4095)
            if dom == 'large': return 1000 + hh % (1 << 30)
            if dom == 'dimn': return (1 if hh >> 50 & 7 else 0) + hh % (4 if self.small else 40)
            if dom == 'order': return hh % (4 if self.small else 12 if hh >> 40 & 3 else 256)
            if self.small: return (1 if dom == 'pos' else 0) + hh % 5
            return 3 + hh % (1 << 10)
        if sort == 'b': return hh & 1 == 1
        return hh
    def appv(self, t, vals):
        return appval(self, t, vals)
    def radd(self, xs):
        s = 0
        for x in xs:
            if x == 'inf' or x == '-inf': return x
            s += x
        return s % P
    def rmul(self, xs):
        r = 1
        for x in xs:
            if isinstance(x, str): return self.h('infmul') % P
            r = r * x % P
        return r
    def rdiv(self, x, y):
        if isinstance(x, str) or isinstance(y, str): return 0 if isinstance(y, str) else self.h('idv') % P
        if y % P == 0: return self.h('dz', x) % P
        return x * pow(y, P - 2, P) % P
    def rpow(self, x, n):
        if isinstance(x, str): return x
        return pow(x, n % (P - 1), P)
    def rlt(self, x, y):
        if x == '-inf' or y == 'inf': return x != y
        if isinstance(x, str) or isinstance(y, str): return False
        d = (y - x) % P
        if d == 0: return False
        m = min(d, P - d)
        return (self.h('lt', m) & 1 == 1) != (d > P // 2)
    def req(self, x, y):
        if isinstance(x, str) or isinstance(y, str): return x == y
        d = (y - x) % P
        if d == 0: return True
        return self.h('eq', min(d, P - d)) % 3 == 0
    def rmax(self, x, y):
        return y if self.rlt(x, y) else x
    def rmin(self, x, y):
        return x if self.rlt(x, y) else y
    def fromint(self, n): return n % P
    def inf(self, s): return '-inf' if s < 0 else 'inf'
    def rfn(self, o, v, t):
        v = [self.h(x) % P if isinstance(x, str) else x for x in v]
        if o == 'abs': return pow(v[0] * v[0] % P, (P + 1) // 4, P)
        if o == 'sqrt':
            r = pow(v[0], (P + 1) // 4, P)
            return r if r * r % P == v[0] % P else r * 0x9E3779B97F4A7C15 % P     # no root here: not that of -x either
        if o in ('exp', 'cos', 'cosh') and v[0] == 0: return 1
        if o == 'ln' and v[0] == 1: return 0
        if o in ('sin', 'tan', 'sinh', 'tanh', 'ln_1p', 'exp_m1', 'atan', 'asin') and v[0] == 0: return 0
        if o == 'cos': return self.h('cos', min(v[0], P - v[0])) % P
        if o == 'nan': return self.h('nan') % P
        if o in ('cosh',): return self.h(o, min(v[0], P - v[0])) % P
        if o == 'sin' or o == 'tan' or o == 'sinh':
            m = min(v[0], P - v[0]); y = self.h(o, m) % P
            return y if m == v[0] else (P - y) % P
        if o == 'isnan' or o == 'is_infinite': return False
        if o == 'is_finite': return True
        hh = self.h('fn', o, *v)
        return self.atom(t.sort, hh, 'int')
    def same(self, x, y): return x == y

def appval(L, t, vals):
    f = t.args[0]
    if f in SPECIAL:
        r = SPECIAL[f](L, t, vals)
        if r is not None: return r
    if t.args[1] == 'lt':     # an index below its last argument
        if vals[-1] <= 0: raise Skip()
        return L.below(L.h('app', f, *vals[:-1]), vals[-1])
    if L.nullf and t.sort == 'r' and len(vals) < 3 and vals and not any(vals) and all(x.sort == 'r' for x in t.args[2:]): return L.fromint(0)   # a user function that maps zero to zero
    return L.atom(t.sort, L.h('app', f, *vals), t.args[1])
# functions with a known interpretation; 'sv' is the activation of a sparse vector: zero when absent
SPECIAL = {}
def _inmap(L, vals):
    "membership of index vals[1] in the sparse vector vals[0] (indices below vals[2])"
    if len(vals) > 2 and not 0 <= vals[1] < vals[2]: return False
    if L.allzero: return False
    d = L.h('density', vals[0]) % 8      # now and then a vector is empty, full, or thinly filled
    if len(vals) > 2 and (d == 2 or d > 2 and L.h('sparse') % 4 == 0):      # a single entry
        o = L.h('only', vals[0])
        return vals[1] == (vals[2] - 1 if o & 1 or o & 6 and L.h('sparse') % 4 == 0 else o // 8 % vals[2])
    h = L.h('app', 'mem', vals[0], vals[1])
    return d == 1 or d != 0 and (h % 3 != 0 if d > 3 else h % 5 == 0)
def _sv(L, t, vals):
    if not _inmap(L, vals): return L.fromint(0)
    return L.atom('r', L.h('app', 'sv', vals[0], vals[1]), t.args[1])
SPECIAL['sv'] = _sv
def _mem(L, t, vals): return _inmap(L, vals)
SPECIAL['mem'] = _mem
def _f32(L, t, vals):
    "rounding to single precision (in a field: some function that keeps zero)"
    v = vals[0]
    if v != v: return v
    if isinstance(v, int): return v if v == 0 else None
    try: w = struct.unpack('f', struct.pack('f', float(v)))[0]
    except OverflowError: raise Skip()
    return w if isinstance(v, float) else D50(w)
SPECIAL['f32'] = _f32
def _bits(f):
    def g(L, t, vals):
        if f == 'Shl' and vals[1] > 4096 or f in ('Shl', 'Shr') and vals[1] < 0: raise Skip()
        x, y = vals[0], vals[-1]
        return x & y if f == 'BitAnd' else x | y if f == 'BitOr' else x ^ y if f == 'BitXor' else x << y if f == 'Shl' else x >> y
    SPECIAL['bit' + f] = g
for _f in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'): _bits(_f)
SPECIAL['bitnot'] = lambda L, t, vals: ~vals[0] if vals[1] else 2 ** 64 - 1 - vals[0]
Lane.ones = Lane.thin = Lane.allzero = Lane.nullf = Lane.heavy = Lane.deep = False; Lane.cap = 3000

HYPER = ('lr', 'mo', 'beta', 'frac')
class Real(Lane):
    direct = float("inf")
    big = wide = light = sharp = heavy = huge = False
    cap = 3000; tol = None
    def real(self, f): return float(f)
    def symv(self, t, env):
        a = t.args
        if a[0] in self.ov: return self.ov[a[0]]
        return self.atom(t.sort, self.h('sym', a[0]), a[1], self.ev(a[2], env) if len(a) > 2 else None)
    def atom(self, sort, hh, dom, bound=None):
        if sort == 'r': return self.rdist(hh, dom)
        if sort == 'i':
            if bound is not None:
                if bound <= 0: raise Skip()
                return self.below(hh, bound)
            if dom == 'vast': return 10 ** 9 + hh % 2 ** 40
            if dom == 'hash': return hh & 2 ** 64 - 1
            if dom == 'few': return 1 + hh % 4
            if self.ipool:
                v = self.near(hh, 1 if dom == 'pos' else 50 if dom == 'large' else 0)
                if v is not None and v <= self.cap and (dom != 'order' or v < 256): return -v if dom == 'int' and hh >> 50 & 1 else v
            if self.deep:
                if dom == 'dimn': return (1, 1, 1, 2, 2, 3)[hh % 6]
                if dom == 'order': return hh % 12 if hh >> 40 & 3 else hh % 256
            if self.wide:
                if dom == 'dimn': return 1 + hh % 10
                if dom == 'order': return hh % 2
                if dom in ('any', 'pos'): return (1 if dom == 'pos' else 0) + hh % 45
            if dom == 'int': return hh % 41 - 20
            if dom == 'small': return hh % 13
            if dom == 'count': return hh % 13 if hh >> 40 & 3 else hh >> 8 & (63 if hh >> 41 & 4 else 4095)
            if dom == 'large': return 50 + hh % 50
            if dom == 'pos': return 1 + hh % 4
            if dom == 'dimn': return 1 + hh % 3 if hh >> 50 & 7 else 0
            if dom == 'order': return hh % 4
            return hh % (12 if self.big else 5) if hh % 7 else 0
        if sort == 'b': return hh & 1 == 1
        return hh
    def rdist(self, hh, dom):
        u = ((hh >> 8) % 1000003) / 1000003.0
        s = hh & 0xff
        if dom == 'unit': return 0.05 + 0.9 * u
        if dom in HYPER:
            if self.rpool and (hh >> 30) % 3 == 0:
                v = self.rpool[(hh >> 34) % len(self.rpool)] * (1, 0.75, 1.5, 1, 1 + 1e-3, 1 - 1e-3, 4, 20)[(hh >> 50) & 7]
                if dom == 'lr': return v
                if (0 if dom == 'beta' else -2) <= v < 1: return v if hh >> 54 & 1 else 1 - v
            if s < 24: return 0.0
            if dom == 'lr': return 10.0 ** (1 - 6 * u) if s < 60 else -0.1 - u if s < 84 else 1.0 if s < 92 else 0.2 + 2 * u
            if s < 64: return 1 - 10.0 ** (-1 - 4 * u)
            if s < 88: return 10.0 ** (-1 - 4 * u)
            if dom == 'mo' and s < 120: return 1.0 if s < 96 else -u if s < 108 else 1 + u
            return 0.05 + 0.9 * u
        if dom == 'pos': return 0.2 + 2 * u
        if dom == 'nz':
            if self.rpool and hh >> 30 & 1: return self.rpool[(hh >> 34) % len(self.rpool)] * (0.75, 0.5, 1.5, 4)[(hh >> 50) & 3] * (1 if s & 1 else -1)
            return (0.2 + 2 * u) * (1 if s & 1 else -1)
        if dom == 'norm' : return -0.3 + 1.6 * u
        if self.allzero and dom == 'act': return 0.0
        if self.huge and s & 2: return 10.0 ** (4 + 8 * u) * (1 if s & 1 else -1)
        if self.rpool and ((hh >> 30) % 3 == 0 or self.sharp and (hh >> 30) % 3 == 1):
            c = self.rpool[(hh >> 34) % len(self.rpool)]
            v = c * (1, 0.75, 1.5, 1, 1 + 1e-3, 1 - 1e-3, 4, 20)[(hh >> 50) & 7]
            return -v if s & 1 else v
        if self.ones and hh >> 56 & 1: return -1.0 if hh >> 57 & 7 == 0 else 1.0
        if s < 40: return 0.0
        if s < 52 and dom == 'act': return 1e-10 if s & 1 else -1e-10
        if s < 60: return 1.0 if s & 1 else -1.0
        if s < 72 and dom == 'act': return 10.0 ** (-5 + 7 * u) * (1 if s & 1 else -1)
        return (0.1 + 2.9 * u) * (1 if s & 1 else -1)
    def appv(self, t, vals):
        return appval(self, t, vals)
    def radd(self, xs): return math.fsum(xs) if all(math.isfinite(x) for x in xs) else sum(xs)
    def rmul(self, xs):
        r = 1.0
        for x in xs: r *= x
        return r
    def rdiv(self, x, y):
        if y == 0:
            if x == 0 or x != x: return float('nan')
            return math.copysign(float('inf'), x) * math.copysign(1, y)
        return x / y
    def rpow(self, x, n):
        try: return float(x) ** n if not (x == 0 and n < 0) else float('inf')
        except OverflowError: raise Skip()
    def rlt(self, x, y): return x < y
    def req(self, x, y): return x == y
    def rmax(self, x, y): return y if x != x else x if y != y else max(x, y)
    def rmin(self, x, y): return y if x != x else x if y != y else min(x, y)
    def fromint(self, n):
        try: return float(n)
        except OverflowError: raise Skip()
    def inf(self, s): return float('inf') * s
    def rfn(self, o, v, t):
        x = v[0] if v else 0.0
        try:
            if o == 'nan': return float('nan')
            if o == 'abs': return abs(x)
            if o == 'sqrt': return math.sqrt(x) if x >= 0 else float('nan')
            if o == 'exp': return math.exp(x)
            if o == 'ln': return math.log(x) if x > 0 else (float('-inf') if x == 0 else float('nan'))
            if o == 'cos': return math.cos(x)
            if o == 'sin': return math.sin(x)
            if o == 'tan': return math.tan(x)
            if o in ('sinh', 'cosh', 'tanh'): return getattr(math, o)(x)
            if o == 'floor': return float(math.floor(x))
            if o == 'ceil': return float(math.ceil(x))
            if o == 'trunc': return float(math.trunc(x))
            if o == 'round': return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
            if o == 'signum': return math.copysign(1.0, x)
            if o == 'r2i': return 0 if x != x else int(max(-2**62, min(2**62, math.trunc(x))))
            if o == 'powf': return math.pow(x, v[1])
            if o == 'atan2': return math.atan2(x, v[1])
            if o == 'pi': return math.pi
            if o == 'fmod': return math.fmod(x, v[1]) if v[1] else float('nan')
            if o == 'isnan': return x != x
            if o == 'is_finite': return math.isfinite(x)
            if o == 'is_infinite': return math.isinf(x)
            if o == 'is_normal': return math.isfinite(x) and abs(x) >= 2.0 ** -1022
            if o in ('asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh'): return getattr(math, o)(x)
            if o == 'log10': return math.log10(x) if x > 0 else float('-inf') if x == 0 else float('nan')
            if o == 'log2': return math.log2(x) if x > 0 else float('-inf') if x == 0 else float('nan')
            if o == 'fract': return math.fmod(x, 1.0)
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Skip()
        return self.atom(t.sort, self.h('fn', o, *v), 'any')
    def same(self, x, y):
        if isinstance(x, bool) or isinstance(y, bool): return x == y
        if isinstance(x, int) and isinstance(y, int): return x == y
        if x != x or y != y: return x != x and y != y
        if math.isinf(x) or math.isinf(y): return x == y
        return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))

class Exact(Real):
    "real arithmetic to fifty digits, so that effects below rounding tolerance are seen"
    tol = decimal.Decimal('1e-13')
    sharp = light = True
    def real(self, f): return PI50 if float(f) == math.pi else D50(f.numerator) / D50(f.denominator)
    def fromint(self, n): return D50(n)
    def atom(self, sort, hh, dom, bound=None):
        v = Real.atom(self, sort, hh, dom, bound)
        if sort != 'r': return v
        if dom in ('act', 'any') and (hh >> 40) & 15 == 3: v = 1e-12 * (1 + (hh >> 44) % 97)
        return D50(repr(v))
    def radd(self, xs): return self.guard(lambda: sum(xs, D50(0)))
    def rmul(self, xs):
        def go():
            r = D50(1)
            for x in xs: r = r * x
            return r
        return self.guard(go)
    def guard(self, f):
        try: r = f()
        except (decimal.DecimalException, ValueError, OverflowError): raise Skip()
        if isinstance(r, D50) and r.is_nan(): raise Skip()
        return r
    def rdiv(self, x, y): return self.guard(lambda: x / y)
    def rpow(self, x, n):
        if abs(n) > 4096: raise Skip('big')
        return self.guard(lambda: D50(1) if n == 0 else x ** n)
    def rmax(self, x, y): return max(x, y)
    def rmin(self, x, y): return min(x, y)
    def inf(self, s): return D50('Infinity') * s
    def rfn(self, o, v, t):
        x = v[0] if v else D50(0)
        if isinstance(x, D50) and not x.is_finite(): raise Skip()
        def go():
            if o == 'abs': return abs(x)
            if o == 'sqrt': return x.sqrt()
            if o == 'exp': return x.exp()
            if o == 'ln': return x.ln()
            if o == 'floor': return x.to_integral_value(decimal.ROUND_FLOOR)
            if o == 'ceil': return x.to_integral_value(decimal.ROUND_CEILING)
            if o == 'trunc': return x.to_integral_value(decimal.ROUND_DOWN)
            if o == 'round': return x.to_integral_value(decimal.ROUND_HALF_UP)
            if o == 'signum': return D50(1 if x >= 0 else -1)
            if o == 'r2i': return int(max(-2**62, min(2**62, x)))
            if o == 'pi': return PI50
            if o in ('isnan', 'is_infinite'): return False
            if o == 'is_finite': return True
            if o == 'is_normal': return abs(x) >= D50(2) ** -1022
            if o == 'cos': return cos50(x)
            if o == 'sin': return cos50(x - PI50 / 2)
            return None
        r = self.guard(go)
        if r is None: raise Skip()
        return r
    def same(self, x, y):
        if isinstance(x, (int, bool)) and isinstance(y, (int, bool)): return x == y
        if not (x.is_finite() and y.is_finite()): return x == y
        return abs(x - y) <= self.tol * max(abs(x), abs(y))
class Twin(Exact):
    "the same interpretation as a lane of floats, to fifty digits"
    def __init__(self, L):
        self.__dict__.update(L.__dict__); self.cache = {}; self.budget = BUDGET_REAL * 2
        for a in ('big', 'wide', 'light', 'sharp', 'heavy', 'huge', 'cap', 'direct', 'ones'): setattr(self, a, getattr(L, a))
    def atom(self, sort, hh, dom, bound=None):
        v = Real.atom(self, sort, hh, dom, bound)
        return D50(v) if sort == 'r' else v
def noise(L, a, b, x, y):
    "the difference between x and y is only rounding: to fifty digits there is none"
    if type(L) is not Real: return False
    t = Twin(L)
    try: u, v = t.run(a), t.run(b)
    except Skip: return False
    if a.sort == 'i' and b.sort == 'r': u = t.fromint(u)
    if b.sort == 'i' and a.sort == 'r': v = t.fromint(v)
    if not t.same(u, v): return False
    if isinstance(u, (int, bool)): return True
    if not u.is_finite(): return False
    return any(math.isfinite(z) and abs(float(u) - z) <= 1e-3 * max(1.0, abs(z)) for z in (x, y))
class NonFinite(Real):
    "some of the user's numbers are infinite or not a number; only asked where the code itself asks whether they are"
    light = True
    def rdist(self, hh, dom):
        if dom in ('act', 'any') and hh >> 44 & 3 == 0: return (float('nan'), float('inf'), float('-inf'), float('nan'))[hh >> 46 & 3]
        return Real.rdist(self, hh, dom)
    def rlt(self, x, y):
        if x != x or y != y: raise Skip()
        return x < y
    def req(self, x, y):
        if x != x or y != y: raise Skip()
        return x == y
    def rmax(self, x, y):
        if x != x or y != y: raise Skip()
        return max(x, y)
    def rmin(self, x, y):
        if x != x or y != y: raise Skip()
        return min(x, y)
    def rfn(self, o, v, t):
        if o not in ('isnan', 'is_finite', 'is_infinite', 'is_normal', 'nan', 'abs') and any(x != x or x in (float('inf'), float('-inf')) for x in v if isinstance(x, float)): raise Skip()
        return Real.rfn(self, o, v, t)
D50 = decimal.Decimal
decimal.getcontext().prec = 50
PI50 = D50('3.14159265358979323846264338327950288419716939937511')
def cos50(x):
    if abs(x) > 1000: raise Skip()
    x = x % (2 * PI50)
    r = t = D50(1); k = 0; q = x * x
    while abs(t) > D50('1e-48'):
        k += 2; t = -t * q / (k * (k - 1)); r += t
    return r if abs(r) > D50('1e-44') else D50(0)

NGF, NREAL, NWIDE, NPOOL, NEXACT = 24, 60, 30, 56, 16
GFL = [GF(1000 + i) for i in range(NGF)]
REALL = [Real(5000 + i) for i in range(NREAL)]
WIDE = [Real(7000 + i) for i in range(NWIDE)]
GFP = [GF(2000 + i) for i in range(NGF)]; REALP = [Real(9000 + i) for i in range(NPOOL)]
EXACT = [Exact(11000 + i) for i in range(NEXACT)]; EXACTP = [Exact(12000 + i) for i in range(NEXACT * 3)]
EXTRA = [Real(15000 + i) for i in range(400)]
HEAVY = [Real(13000 + i) for i in range(4)]; DEEP = [Real(14000 + i) for i in range(NEXACT * 2)]
for _l in DEEP: _l.deep = True
for _i, _l in enumerate(EXTRA): _l.thin = _i % 8 >= 4; _l.big = _i % 3 == 2; _l.sharp = _i % 4 >= 2; _l.nullf = _i % 5 == 4; _l.allzero = _i % 40 == 39; _l.ones = _i % 3 == 0
for _l in WIDE: _l.wide = True
for _l in HEAVY: _l.heavy = True
HUGE = [Real(16000 + i) for i in range(24)]
for _l in HUGE: _l.huge = True
NONFIN = [NonFinite(17000 + i) for i in range(40)]
for _i, _l in enumerate(EXACT + EXACTP): _l.nullf = _i % 3 == 0
for _l in WIDE + REALP: _l.light = True
for _i, _l in enumerate(WIDE): _l.allzero = _i % 10 == 9
for _i, _l in enumerate(GFP): _l.small = _i % 2 == 1
for _i, _l in enumerate(REALP): _l.thin = _i % 8 >= 5; _l.wide = _i % 3 == 0; _l.sharp = _i % 2 == 1; _l.nullf = _i % 4 >= 2; _l.ones = _i % 8 == 1
def more_lanes(k):
    "thorough: k times as many interpretations"
    for g, mk_ in ((GFL, GF), (REALL, Real), (WIDE, Real), (GFP, GF), (REALP, Real), (EXACT, Exact), (EXACTP, Exact)):
        n = len(g)
        for i in range(n, n * k):
            l = mk_(g[0].seed + 100000 + i); o = g[i % n]
            for a in ('small', 'allzero', 'big', 'wide', 'light', 'sharp', 'nullf', 'thin', 'ones'):
                if hasattr(o, a): setattr(l, a, getattr(o, a))
            g.append(l)
def asks(ts):
    "some term asks whether a number is finite"
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op in ('isnan', 'is_finite', 'is_infinite', 'is_normal'): return True
        todo += subterms(t)
    return False
def narrow(ts):
    "some term rounds to single precision or is cut off at the bounds of a machine integer: only large values show it"
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op == 'app' and t.args[0] == 'f32' or t.op == 'const' and t.sort == 'i' and 2 ** 15 - 1 <= abs(t.args[0]) < 2 ** 62: return True
        todo += subterms(t)
    return False
def constants(ts, _memo={}):
    "integer and real constants of the terms, beyond the ordinary small ones"
    out, seen, todo = set(), set(), list(ts)
    while todo:
        t = todo.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op == 'const': out.add((t.sort, abs(t.args[0])))
        todo += subterms(t)
    ints = sorted({int(v) for s, v in out if v.denominator == 1 and 3 <= v <= 10 ** 7} | {int(v) // 2 for s, v in out if v.denominator == 1 and 8 <= v <= 10 ** 7})
    reals = sorted({float(v) for s, v in out if s == 'r' and v not in (0, 1) and 1e-300 < v < 1e300})
    cut = lambda x, n: tuple(x) if len(x) <= n else tuple(x[i * len(x) // n] for i in range(n))
    return cut(ints, 24), cut(reals, 24)
for _i, _l in enumerate(GFL): _l.small = _i % 2 == 1
for _i, _l in enumerate(REALL):
    if _i % 10 == 9: _l.allzero = True
    if _i % 10 == 3: _l.big = True
    _l.ones = _i % 5 == 1

def replace(t, m, memo=None):
    "replace closed subterms"
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None: return r
    if t in m: r = m[t]
    elif t.op in ('const', 'bv', 'true', 'false', 'unk', 'inf', 'nan'): r = t
    elif t.op == 'fold':
        n, k, accs, inits, steps, which = t.args
        r = mkfold(replace(n, m, memo), k, accs, [replace(x, m, memo) for x in inits], [replace(x, m, memo) for x in steps], which)
    else:
        args = tuple(replace(a, m, memo) if isinstance(a, T) else a for a in t.args)
        r = rebuild(t, args) if any(x is not y for x, y in zip(args, t.args)) else t
    memo[t.id] = r
    return r
def literals(assume):
    "boolean atoms fixed by the assumption"
    m = {}
    for l in (assume.args if assume.op == 'and' else (assume,)):
        if not isinstance(l, T): continue
        if l.op == 'app': m[l] = TRUE
        elif l.op == 'not' and l.args[0].op == 'app': m[l.args[0]] = FALSE
    return m

def binders(ts):
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op in ('sum', 'prod', 'any', 'first', 'maxr', 'minr', 'nth', 'fold'): return True
        todo += subterms(t)
    return False

class Verdict:
    def __init__(self, status, detail=''):
        self.status = status; self.detail = detail      # proved / agree / violated / undecided
    def __repr__(self): return '%s %s' % (self.status, self.detail)

TIME, SPENT = 350.0, [0.0]     # processor seconds for all comparisons of a run; ordinary runs use a few
def compare(pairs, assume=TRUE, exact=True):
    t = time.process_time()
    try: return decide(pairs, assume, exact)
    finally: SPENT[0] += time.process_time() - t
def decide(pairs, assume, exact):
    """Decide  assume => a == b  for all pairs (a, b)."""
    us = set()
    for a, b in pairs:
        for t in (a, b):
            if has_unk(t): us |= unk_reasons(t)
    if has_unk(assume): us |= unk_reasons(assume)
    if us: return Verdict('undecided', 'not summarised: ' + '; '.join(sorted(us))[:300])
    m = literals(assume)
    if m:
        pairs = [(replace(a, m), replace(b, m)) for a, b in pairs]; assume = replace(assume, m)
    pairs = [(a, b) for a, b in pairs if a is not b]
    if not pairs: return Verdict('proved', 'identical terms')
    def coer(L, v, t, o): return L.fromint(v) if t.sort == 'i' and o.sort == 'r' else v
    pool = constants([t for p in pairs for t in p] + [assume])
    directed = bool(pool[0] or pool[1])
    cap = 10 ** 9 if directed and not binders([t for p in pairs for t in p] + [assume]) else 3000
    heavy = directed and cap == 3000 and any(3000 < c <= 200000 for c in pool[0])
    if directed:
        for L in GFP + REALP + EXACTP + (HEAVY if heavy else []): L.direct_at(pool, 250000 if L.heavy else cap)
    used = [0, 0]; ok = True
    for L in GFL + (GFP if directed else []):
        L.budget = BUDGET_GF
        try:
            if not L.run(assume): continue
            for a, b in pairs:
                x, y = coer(L, L.run(a), a, b), coer(L, L.run(b), b, a)
                if x != y: ok = False; break
            used[L.small] += 1
        except Skip: continue
        if not ok: break
    proved = ok and used[0] >= 3 and used[1] >= 3
    t0 = t1 = time.process_time(); limit = max(1.0, min(20.0, (TIME - SPENT[0]) / 8)); late = False
    nreal = 0; reals_ = all(t.sort in 'rb' for p in pairs for t in p)
    reals = any(t.sort in 'rb' for p in pairs for t in p)
    for L in REALL + WIDE + (DEEP if not ok else []) + (REALP if directed else []) + (HUGE if narrow([t for p in pairs for t in p]) else []) + (NONFIN if reals_ and asks([t for p in pairs for t in p]) else []) + (HEAVY if heavy else []) + (EXACT + (EXACTP if directed else []) if exact and reals else []):
        if L.heavy and not late: late, t1 = True, time.process_time()
        if time.process_time() - t1 > limit: continue
        L.budget = BUDGET_REAL * 20 if L.heavy else BUDGET_REAL * 2 if L.deep else BUDGET_REAL // 4 if L.light else BUDGET_REAL
        try:
            if not L.run(assume): continue
            for a, b in pairs:
                x, y = coer(L, L.run(a), a, b), coer(L, L.run(b), b, a)
                if not L.same(x, y):
                    if proved and not isinstance(L, NonFinite) and (L.tol or not (isinstance(x, (int, bool)) or (math.isfinite(x) and math.isfinite(y)))): continue
                    if noise(L, a, b, x, y): continue
                    return Verdict('violated', '%s is %s, required %s is %s (for some contents; lane %d)'
                                   % (show(a)[:300], num(x), show(b)[:300], num(y), L.seed))
            nreal += 1
        except Skip: continue
    left = BUDGET_EXTRA
    for L in EXTRA:
        if left <= 0 or time.process_time() - t0 > limit: break
        L.direct_at(pool if directed and L.seed & 1 else ((), ()), cap)
        L.budget = given = min(left, BUDGET_REAL // 4)
        try:
            if L.run(assume):
                for a, b in pairs:
                    x, y = coer(L, L.run(a), a, b), coer(L, L.run(b), b, a)
                    if not L.same(x, y):
                        if proved and not (isinstance(x, (int, bool)) or (math.isfinite(x) and math.isfinite(y))): continue
                        if noise(L, a, b, x, y): continue
                        return Verdict('violated', '%s is %s, required %s is %s (for some contents; lane %d)'
                                       % (show(a)[:300], num(x), show(b)[:300], num(y), L.seed))
                nreal += 1
        except Skip: pass
        left -= given - max(0, L.budget) + 20
    if proved: return Verdict('proved', 'all lanes (%d random-interpretation, %d real)' % (sum(used), nreal))
    if nreal >= 10: return Verdict('agree', 'not refuted on %d real lanes' % nreal)
    return Verdict('undecided', 'only %d usable lanes' % (sum(used) + nreal))
BUDGET_GF, BUDGET_REAL, BUDGET_EXTRA = 60000, 120000, 60000
def num(x): return str(int(x))[:40] if isinstance(x, int) else '%.6g' % x
def valid(cond, assume=TRUE):
    return compare([(cond, TRUE)], assume)
