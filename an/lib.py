"""Summaries of the library calls used by the analysed crate (std, ndarray, itertools, spaces).

A call is resolved by the compiler (callee path), its receiver is an abstract value; the summary is
selected by method name and receiver kind.  Anything without a summary yields `unknown` and havocs
what the callee could modify.
"""
from fractions import Fraction
from absint import *
from terms import *
import terms as TM
import math, re

CF = 'core::ops::control_flow::ControlFlow'
CONSTS = {'PI': const(0, 'r'), 'NEG_INFINITY': NEGINF, 'INFINITY': POSINF, 'NAN': NAN,
          'EPSILON': R(Fraction(1, 2 ** 52)), 'MAX': app('MAX', [], 'i', 'hash'), 'MIN_POSITIVE': R(Fraction(1, 2 ** 1022))}
PI = mk('pi', (), 'r')
CONSTS['PI'] = PI
CONSTS['TAU'] = mul(R(2), PI)
CONSTS['FRAC_PI_2'] = div(PI, R(2))
CONSTS['SQRT_2'] = fn1('sqrt', R(2))
DIM, CARD = 'spaces::dim::Dim', 'spaces::card::Card'
def finite(path, n): return Adt(path, 0, 'Finite', (n,))
def infinite(path): return Adt(path, 1, 'Infinite', ())
def cont(x): return Adt(CF, 0, 'Continue', (x,))
def brk(x): return Adt(CF, 1, 'Break', (x,))
def opt(c, x): return vite(c, some(x), none())
IDSEQ = Seq(POSINF if False else I(1 << 60), lambda j: j)

def seqlike(v): return isinstance(v, Seq)

# ------------------------------------------------------------------ digests of structured values
def digest(I_, st, v):
    "a term that identifies a structured value (equal digests iff equal contents, up to collisions)"
    v = I_.deref(st, v)
    if isinstance(v, T): return v if v.sort != 'u' else v
    if isinstance(v, Opq): return v.t
    if isinstance(v, Str): return app('str:' + v.s, [], 'o')
    if isinstance(v, Tup): return app('tup', [digest(I_, st, x) for x in v.items], 'o')
    if isinstance(v, Seq):
        v = absint.flat(v)
        if v.guard is not None: return TM.unk('digest of a filtered sequence')
        q = bv('i', 'k')
        e = digest(I_, st, v.at(q))
        return app('seq', [v.n, sum_(v.n, q, app('dig', [q, e], 'r'))], 'o')
    if isinstance(v, MapV):
        if v.bound is None: return TM.unk('digest of an unbounded map')
        q = bv('i', 'k')
        e = digest(I_, st, v.get(q))
        return app('map', [sum_(v.bound, q, ite(v.mem(q), app('dig', [q, e], 'r'), R(0)))], 'o')
    if isinstance(v, Mat):
        q, r = bv('i', 'k'), bv('i', 'k')
        return app('mat', [v.nr, v.nc, sum_(v.nr, q, sum_(v.nc, r, app('dig', [q, r, v.at(q, r)], 'r')))], 'o')
    if isinstance(v, Adt):
        if v.path.endswith('::Features'):
            n, act = I_.lib.feat_obs(I_, st, v)
            if n is not None:
                q = bv('i', 'k')
                return app('features', [n, sum_(n, q, app('dig', [q, act(q)], 'r'))], 'o')
        return app('adt:%s:%d' % (v.path, v.var), [digest(I_, st, x) for x in v.fields], 'o')
    if isinstance(v, VIte):
        a, b = digest(I_, st, v.a), digest(I_, st, v.b)
        if a.sort == b.sort or a.sort == 'u' or b.sort == 'u': return ite(v.c, a, b)
    return TM.unk('digest of %s' % (v.why if isinstance(v, Unk) else type(v).__name__))
def feat_obs(I_, st, f):
    "number of features and activation function of an abstract Features value"
    x = I_.deref(st, f.fields[0])
    if isinstance(x, Seq): x = absint.flat(x)
    if f.vname == 'Dense' and isinstance(x, Seq) and x.guard is None: return x.n, x.at
    if f.vname == 'Sparse' and isinstance(x, Adt):
        d = I_.deref(st, x.get('dim')); m = I_.deref(st, x.get('activations'))
        if isinstance(d, T) and isinstance(m, MapV):
            return d, lambda j: ite(m.mem(j), m.get(j), R(0))
    return None, None

# ------------------------------------------------------------------ structural equality
def veq(I_, st, a, b):
    a, b = I_.deref(st, a), I_.deref(st, b)
    if isinstance(a, T) and isinstance(b, T): return eq(a, b)
    if is_unk(a): return TM.unk(why(a))
    if is_unk(b): return TM.unk(why(b))
    if isinstance(a, VIte): return ite(a.c, veq(I_, st, a.a, b), veq(I_, st, a.b, b))
    if isinstance(b, VIte): return ite(b.c, veq(I_, st, a, b.a), veq(I_, st, a, b.b))
    if isinstance(a, Tup) and isinstance(b, Tup): return and_(*[veq(I_, st, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.path == b.path and a.var != b.var: return FALSE
        if a.path != b.path: return TM.unk('comparison of different types')
        if a.path.startswith('crate::'):
            f = I_.dispatch('core::cmp::PartialEq', 'eq', a)
            if f and not f.get('derived'):
                return I_.scalar(st, I_.call_fn(st, f['key'], [Ref(st.new(a)), Ref(st.new(b))]))
        return and_(*[veq(I_, st, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, Seq) and isinstance(b, Seq) and a.guard is None and b.guard is None:
        q = bv('i', 'k')
        d = not_(veq(I_, st, a.at(q), b.at(q)))
        return and_(eq(a.n, b.n), not_(any_(a.n, q, d)))
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.bound is None or b.bound is None: return TM.unk('comparison of unbounded maps')
        q = bv('i', 'k')
        d = or_(not_(eq(a.mem(q), b.mem(q))), and_(a.mem(q), not_(veq(I_, st, a.get(q), b.get(q)))))
        return not_(any_(max2(a.bound, b.bound), q, d))
    if isinstance(a, Mat) and isinstance(b, Mat):
        q, r = bv('i', 'k'), bv('i', 'k')
        return and_(eq(a.nr, b.nr), eq(a.nc, b.nc), not_(any_(a.nr, q, any_(a.nc, r, not_(eq(a.at(q, r), b.at(q, r)))))))
    if isinstance(a, Opq) and isinstance(b, Opq): return eq(a.t, b.t)
    if isinstance(a, Str) and isinstance(b, Str): return B(a.s == b.s)
    return TM.unk('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

# ------------------------------------------------------------------ streams
def shift(s):
    if s.pos is I(0): return s
    p = s.pos
    return Stream(None if s.n is None else max2(sub(s.n, p), I(0)), lambda st, k: s.pull(st, add(k, p)), s.ordered, s.guarded, None, s.incr)
def const_ref(I_, st, j):
    c = I_.__dict__.get('_idcell')
    if c is None: c = I_._idcell = next(absint_cells)
    st.cells[c] = IDSEQ
    return Ref(c, (('i', j),))
import absint
absint_cells = absint._cells
def seq_stream(v, items):
    if v.guard is not None: return Stream(v.n, lambda st, k: (v.guard(k), items(st, k)), v.ordered, True)
    return Stream(v.n, lambda st, k: (TRUE, items(st, k)), v.ordered, False)
def stream_ref(I_, st, place, v):
    "iteration by reference over the container stored at place"
    if isinstance(v, Seq): return seq_stream(v, lambda s, k: place.ext(('i' if v.guard is None else 'raw', k)) if isinstance(place, Ref) else v.at(k))
    if isinstance(v, MapV):
        if v.bound is None: return I_.unk('iteration over a map without known bound')
        if v.kind == 'set': return Stream(v.bound, lambda s, k: (v.mem(k), const_ref(I_, s, k)), False, True)
        return Stream(v.bound, lambda s, k: (v.mem(k), Tup((const_ref(I_, s, k), place.ext(('k', k)) if isinstance(place, Ref) else v.get(k)))), False, True)
    return None
def stream(I_, st, v):
    "IntoIterator::into_iter"
    if isinstance(v, (Ref, View)):
        place = I_.place_of(st, v)
        x = I_.deref(st, v)
        if isinstance(x, Stream): return ByRef(place, x)
        if isinstance(x, VIte): return I_.unk('iteration over a gated container')
        if isinstance(x, Adt):
            if x.path == OPTION: return opt_stream(x, place)
            return custom(I_, st, place, x)
        r = stream_ref(I_, st, place, x)
        if r is not None: return r
        if is_unk(x): return I_.unk(why(x))
        return I_.unk('iteration over %s' % type(x).__name__)
    if isinstance(v, Stream): return v
    if isinstance(v, Seq): return seq_stream(v, lambda s, k: v.at(k))
    if isinstance(v, MapV):
        if v.bound is None: return I_.unk('iteration over a map without known bound')
        if v.kind == 'set': return Stream(v.bound, lambda s, k: (v.mem(k), k), False, True)
        return Stream(v.bound, lambda s, k: (v.mem(k), Tup((k, v.get(k)))), False, True)
    if isinstance(v, Adt):
        if v.path.endswith('::Range'): 
            a, b = [I_.scalar(st, x) for x in v.fields[:2]]
            return Stream(max2(sub(b, a), I(0)) if a is not I(0) or not nonneg(b) else b, lambda s, k: (TRUE, add(a, k)), incr=True)
        if v.path.endswith('::RangeInclusive'):
            a, b = [I_.scalar(st, x) for x in v.fields[:2]]
            n = add(sub(b, a), I(1))
            return Stream(n if nonneg(n) else max2(n, I(0)), lambda s, k: (TRUE, add(a, k)), incr=True)
        if v.path.endswith('::RangeFrom'):
            a = I_.scalar(st, v.fields[0])
            return Stream(None, lambda s, k: (TRUE, add(a, k)), incr=True)
        if v.path == OPTION: return opt_stream(v, None)
        if v.path.startswith('crate::'): return custom(I_, st, Ref(st.new(v)), v)
    if isinstance(v, VIte):
        # gated containers of one kind
        a, b = stream(I_, st, v.a), stream(I_, st, v.b)
        if isinstance(a, Stream) and isinstance(b, Stream) and a.n is not None and b.n is not None:
            a, b = shift(a), shift(b)
            def pull(s, k):
                ga, xa = a.pull(s, k); gb, xb = b.pull(s, k)
                return ite(v.c, and_(ga, lt(k, a.n)), and_(gb, lt(k, b.n))), vite(v.c, xa, xb)
            if a.n is b.n: return Stream(a.n, lambda s, k: (ite(v.c, a.pull(s, k)[0], b.pull(s, k)[0]), vite(v.c, a.pull(s, k)[1], b.pull(s, k)[1])), a.ordered and b.ordered, a.guarded or b.guarded)
            return Stream(ite(v.c, a.n, b.n), lambda s, k: (ite(v.c, a.pull(s, k)[0], b.pull(s, k)[0]), vite(v.c, a.pull(s, k)[1], b.pull(s, k)[1])), a.ordered and b.ordered, a.guarded or b.guarded)
    if is_unk(v): return I_.unk(why(v))
    return I_.unk('iteration over %s' % type(v).__name__)
def ByRef(place, s):
    # consuming through &mut iterator: remaining elements, position not tracked
    return s
def opt_stream(v, place):
    g = B(v.var == 1)
    return Stream(I(1), lambda s, k: (g, (place.ext(('f', 0, 1)) if place is not None else v.fields[0]) if v.var == 1 else BOT), True, True) if v.var == 0 else \
        Stream(I(1), lambda s, k: (TRUE, place.ext(('f', 0, 1)) if place is not None else v.fields[0]))
def custom(I_, st, place, v):
    "iterator or collection implemented in the crate: drain `next` with the loop summariser"
    ii = I_.dispatch('core::iter::traits::collect::IntoIterator', 'into_iter', v)
    if ii: return stream(I_, st, I_.call_fn(st, ii['key'], [v]))
    f = I_.dispatch('core::iter::traits::iterator::Iterator', 'next', v)
    if not f: return I_.unk('iteration over %s' % v.path)
    out = st.new(Seq(I(0), lambda j: BOT))
    fr = I_.frames[-1] if getattr(I_, 'frames', None) else Frame('', {}, st.pc, 0)
    def body(s, k):
        r = I_.call_fn(s, f['key'], [place])
        if s.dead: return
        c = st_place(I_, s, r)
        def t(s2):
            x = I_.proj(s2, I_.restrict(I_.deref(s2, c), 1, True), ('f', 0, 1))
            push(I_, s2, Ref(out), x); return UNIT
        def n(s2):
            ctx = fr.loops[-1]
            ctx.breaks.append((conj(s2.pc[len(ctx.entry):]), UNIT, s2.copy()))
            s2.dead = True
            return BOT
        I_.branch(s, I_.is_variant(I_.deref(s, c), 1), t, n)
    I_.loop(st, None, body, fr, None, True)
    return stream(I_, st, st.cells.get(out, Unk('iterator')))
def st_place(I_, st, v): return v if isinstance(v, Ref) else Ref(st.new(v))

def push(I_, st, place, x):
    v = I_.read(st, place)
    if not isinstance(v, Seq):
        I_.write(st, place, I_.unk('push to %s' % type(v).__name__)); return
    if isinstance(v.tag, absint.Slot):
        I_.write(st, place, Seq(v.n, v.base, v.writes, v.guard, v.ordered, v.pushes + ((TRUE, x),), v.tag)); return
    v = absint.flat(v)
    if v.guard is not None: I_.write(st, place, I_.unk('push to a filtered sequence')); return
    n = v.n
    if n is I(0): I_.write(st, place, Seq(I(1), lambda j: x)); return
    I_.write(st, place, Seq(add(n, I(1)), lambda j: vite(eq(j, n), x, v.at(j))))

def fixed(I_, st, s, what=''):
    """Evaluate the element of a stream once, at a fresh index: (n, q, guard, value) or None when
    producing an element changes state (then the stream must be run by the loop summariser)."""
    s = shift(s)
    q = bv('i', 'k')
    before = dict(st.cells)
    s2 = st.copy()
    np = len(I_.panics)
    rng = (le(I(0), q),) + ((lt(q, s.n),) if s.n is not None else ())
    s2.pc = st.pc + tuple(x for x in rng if x is not TRUE)
    g, v = s.pull(s2, q)
    for c, old in before.items():
        if s2.cells.get(c) is not old and not same(s2.cells.get(c), old):
            del I_.panics[np:]
            return None
    ps = I_.panics[np:]; del I_.panics[np:]
    for c, site, w in ps:
        I_.panics.append((any_(s.n, q, c) if s.n is not None and q in c.fv else c, site, w))
    for c in s2.cells:
        if c not in before: st.cells[c] = s2.cells[c]
    if s2.dead: return s.n, q, FALSE, BOT
    v = lift(I_, st, v, before, q)
    return s.n, q, g, v
def lift(I_, st, v, before, q):
    "references to cells created for this element become references into an indexed family"
    if isinstance(v, Ref):
        if v.cell in before or v.cell == I_.__dict__.get('_idcell'): return v
        x = lift(I_, st, st.cells.get(v.cell, BOT), before, q)
        c = st.new(Seq(I(1 << 60), lambda j, x=x: vsubst(x, {q: j})))
        return Ref(c, (('i', q),) + v.path)
    if isinstance(v, Tup): return Tup([lift(I_, st, x, before, q) for x in v.items])
    if isinstance(v, Adt): return Adt(v.path, v.var, v.vname, [lift(I_, st, x, before, q) for x in v.fields], v.fnames)
    if isinstance(v, View): return View(lift(I_, st, v.ref, before, q))
    if isinstance(v, VIte): return VIte(v.c, lift(I_, st, v.a, before, q), lift(I_, st, v.b, before, q))
    return v
def materialise(I_, st, s):
    "collect a state-changing stream into a sequence"
    out = st.new(Seq(I(0), lambda j: BOT))
    def step(s2, k, item, ordered): push(I_, s2, Ref(out), item)
    I_.consume(st, s, step)
    return st.cells.get(out, BOT)
def pure(I_, st, s):
    "(n, q, guard, value, ordered)"
    r = fixed(I_, st, s)
    if r is None:
        v = materialise(I_, st, s)
        if not isinstance(v, Seq): return None
        s = seq_stream(v, lambda s_, k: v.at(k))
        r = fixed(I_, st, s)
        if r is None: return None
    return r + (s.ordered,)
def to_seq(I_, st, s):
    r = pure(I_, st, s)
    if r is None: return I_.unk('collection of a state-changing iterator')
    n, q, g, v, o = r
    if n is None: return I_.unk('collection of an unbounded iterator')
    if is_unk(v) and not isinstance(v, T): pass
    return Seq(n, lambda j: vsubst(v, {q: j}), guard=None if g is TRUE else (lambda j: subst(g, {q: j})), ordered=o)
def to_map(I_, st, s, kind):
    r = pure(I_, st, s)
    if r is None: return I_.unk('collection of a state-changing iterator')
    n, q, g, v, o = r
    if n is None: return I_.unk('collection of an unbounded iterator')
    if kind == 'map':
        v = I_.deref(st, v)
        if not isinstance(v, Tup): return I_.unk('map entry')
        key, val = I_.scalar(st, v.items[0]), v.items[1]
        if isinstance(I_.deref(st, val), T): val = I_.deref(st, val)
    else: key, val = I_.scalar(st, v), UNIT
    if key.sort == 'u': return Unk(why(key))
    j0 = bv('i', 'j')
    kq = solve(key, j0, q)
    if kq is not None:
        def inr(j): 
            i = subst(kq, {j0: j})
            c = and_(le(I(0), i), lt(i, n), subst(g, {q: i}))
            return c
        bound = n if key is q else maxr(n, q, g, add(key, I(1)), I(0)) if not (q not in sub(key, q).fv) else add(n, sub(key, q))
        m = MapV(bound, lambda j: inr(j), lambda j: vsubst(val, {q: subst(kq, {j0: j})}), kind=kind)
        if key is q and implies_range(g, q, n): m = MapV(n, lambda j: subst(g, {q: j}), lambda j: vsubst(val, {q: j}), kind=kind)
        return m
    mem = lambda j: any_(n, q, and_(g, eq(key, j)))
    bound = maxr(n, q, g, add(key, I(1)), I(0))
    ub = upper(key)
    if ub is not None and q not in ub.fv: bound = ub
    if kind == 'set' or not has_bv(I_, val, q):
        return MapV(bound, mem, lambda j: val, kind=kind)
    if isinstance(val, T) and o:
        # last entry with that key wins
        x = bv(val.sort, 'acc')
        return MapV(bound, mem, lambda j: mkfold(n, q, [x], [const(0, val.sort)], [ite(and_(g, eq(key, j)), val, x)], 0), kind=kind)
    if isinstance(val, T):
        # unordered source with colliding keys: any of them; keys of a map source are distinct in this crate's uses
        x = bv(val.sort, 'acc')
        return MapV(bound, mem, lambda j: mkfold(n, q, [x], [const(0, val.sort)], [ite(and_(g, eq(key, j)), val, x)], 0), kind=kind)
    return I_.unk('map values')
def implies_range(g, q, n):
    "a membership atom over a map with keys below n implies the range"
    cs = g.args if g.op == 'and' else (g,)
    return any(c.op == 'app' and c.args[0] == 'mem' and c.args[3] is q and (len(c.args) > 4 and c.args[4] is n) for c in cs)
def has_bv(I_, v, q):
    if isinstance(v, T): return q in v.fv
    if isinstance(v, Tup): return any(has_bv(I_, x, q) for x in v.items)
    return True
def upper(t):
    "an exclusive upper bound of an index term"
    if t.op == 'const': return I(int(t.args[0]) + 1)
    if t.op == 'app' and t.args[1] == 'lt': return t.args[-1]
    if t.op == 'sym' and len(t.args) > 2: return t.args[2]
    if t.op == 'trem' and nonneg(t.args[0]): return t.args[1]
    if t.op == 'erem': return t.args[1]
    if t.op == 'ite':
        a, b = upper(t.args[1]), upper(t.args[2])
        if a is not None and b is not None: return max2(a, b)
    return None

# ------------------------------------------------------------------ receivers
def is_crate(path): return path.startswith('crate::')
def derived(I_, st, fn, callee, args, site):
    tr = fn.get('trait')
    if tr == 'core::clone::Clone' and fn['name'] == 'clone':
        v = I_.read(st, args[0]) if isinstance(args[0], (Ref, VIte)) else args[0]
        return I_.deref(st, v) if isinstance(v, Ref) else v
    if tr == 'core::cmp::PartialEq' and fn['name'] == 'eq': return veq(I_, st, args[0], args[1])
    if tr in ('core::fmt::Debug',): return Unk('fmt')
    return None
def is_opaque_trait(I_, st, trait, args):
    v = I_.deref(st, args[0]) if args else None
    return isinstance(v, Opq)
def opaque_method(I_, st, trait, name, args, site):
    v = I_.deref(st, args[0]) if args else None
    if isinstance(v, VIte):
        return I_.branch(st, v.c, lambda s: opaque_method(I_, s, trait, name, [v.a] + list(args[1:]), site),
                         lambda s: opaque_method(I_, s, trait, name, [v.b] + list(args[1:]), site))
    if isinstance(v, Opq):
        h = I_.opaque.get((v.tag, name)) or I_.opaque.get(('*', name))
        if h: return h(I_, st, v, args)
        d = [f for f in I_.D['fns'] if f.get('intrait') == trait and f.get('name') == name and 'body' in f and not f.get('trait')]
        if len(d) == 1: return I_.call_fn(st, d[0]['key'], args, site)
    return unknown(I_, st, 'method %s of %s' % (name, v.tag if isinstance(v, Opq) else type(v).__name__), args, None, site)

def unknown(I_, st, what, args, e, site):
    d = I_.deref(st, args[0]) if args else None
    u = Unk(d.why) if isinstance(d, Unk) else I_.unk('call of %s' % what, site)
    for i, a in enumerate(args):
        t = None
        if e is not None and i < len(e.get('args', [])): t = I_.T[e['args'][i]['ty']]['s'] if 'ty' in e['args'][i] else '&mut'
        havoc(I_, st, a, u, t)
    return u
def havoc(I_, st, a, u, t=None, depth=0):
    "an unknown callee may change whatever its argument gives mutable access to; t: the argument's type, when known"
    if depth > 6: return
    if isinstance(a, (Ref, View, VIte)):
        if isinstance(a, VIte) and not isinstance(a.a, (Ref, View, VIte)):
            for x in (a.a, a.b): havoc(I_, st, x, u, t, depth + 1)
            return
        if t is not None and '&mut' not in t and 'Mut' not in t and 'Entry<' not in t and 'Drain<' not in t: return
        if t is not None and not t.startswith('&mut') and 'Mut' not in t:
            x = I_.deref(st, a)
            if not isinstance(x, (Seq, MapV, Mat, T)): return havoc(I_, st, x, u, None, depth + 1)
        p = I_.place_of(st, a)
        if isinstance(p, (Ref, VIte)) and I_.all_refs(p): I_.write(st, p, u)
    elif isinstance(a, Entry): havoc(I_, st, a.ref, u, None, depth + 1)
    elif isinstance(a, RawPtr): havoc(I_, st, a.ref, u, None, depth + 1)
    elif isinstance(a, Tup):
        if t is None or '&mut' in t or 'Mut' in t or 'Entry<' in t:
            for x in a.items: havoc(I_, st, x, u, None, depth + 1)
    elif isinstance(a, Adt):
        if t is None or '&mut' in t or 'Mut' in t or '<' in t or is_crate(a.path):
            for x in a.fields: havoc(I_, st, x, u, None if t is None or '&mut' in t or 'Mut' in t else t, depth + 1)
    elif isinstance(a, Clo):
        mv = changed_captures(I_, a.key)
        for v, c in a.env.items():
            if v not in mv: continue
            x = st.cells.get(c)
            if isinstance(x, (Ref, View)): havoc(I_, st, x, u, None, depth + 1)
            else: st.cells[c] = u
    elif isinstance(a, Stream):
        # what evaluating an element changes, and what the elements give access to
        s2 = st.copy()
        try: g, item = a.pull(s2, bv('i', 'probe'))
        except Skip: return
        for c in list(st.cells):
            if s2.cells.get(c) is not st.cells[c]: st.cells[c] = u
        if t is None or '&mut' in t or 'Mut' in t or 'Drain' in t:
            for r in ([item] if isinstance(item, (Ref, View)) else [x for x in getattr(item, 'items', ()) if isinstance(x, (Ref, View))]):
                r = r.ref if isinstance(r, View) else r
                if isinstance(r, Ref) and r.cell in st.cells: I_.write(st, Ref(r.cell, [p for p in r.path if p[0] == 'f']), u)
def changed_captures(I_, key, _memo={}):
    "the captured variables a closure may assign to or borrow mutably"
    fn = I_.fns.get(key)
    if fn is None: return set()
    r = _memo.get((id(I_.fns), key))
    if r is not None: return r
    out = set(); _memo[(id(I_.fns), key)] = out
    def root(n):
        while isinstance(n, dict):
            if n.get('k') in ('Var', 'Upvar'): out.add(n['var']); return
            n = n.get('e')
    def go(n):
        if isinstance(n, list):
            for x in n: go(x)
        elif isinstance(n, dict):
            k = n.get('k')
            if k in ('Assign', 'AssignOp'): root(n['l'])
            elif k in ('Borrow', 'RawBorrow') and n.get('mut'): root(n['e'])
            elif k == 'Closure':
                inner = changed_captures(I_, n['key'])
                for c in n['caps']:
                    if c['var'] in inner or not c['byref']: out.add(c['var'])
            elif k in ('Var', 'Upvar') and 'ty' in n and '&mut' in I_.T[n['ty']]['s']: out.add(n['var'])
            for x in n.values(): go(x)
    go(fn.get('body'))
    return out

def tyinfo(I_, callee, i):
    a = callee.get('args') or []
    return I_.T[a[i]] if i < len(a) and isinstance(a[i], int) else {}

def call(I_, st, callee, args, site, e):
    path, name, tr = callee['path'], callee.get('name', ''), callee.get('trait')
    f = FREE.get(path)
    if f: return f(I_, st, args, callee, site, e)
    h = FREE_NAME.get((path.split('::')[0], name))
    if tr:
        f = TRAITS.get((tr.split('::')[-1], name))
        if f:
            r = f(I_, st, args, callee, site, e)
            if r is not NotImplemented: return r
    if args:
        r = method(I_, st, name, args, callee, site, e)
        if r is not NotImplemented: return r
    if h: return h(I_, st, args, callee, site, e)
    return unknown(I_, st, path, args, e, site)

def method(I_, st, name, args, callee, site, e):
    d = I_.deref(st, args[0])
    if d is BOT: return BOT
    if isinstance(d, VIte):
        if isinstance(I_, object) and name in GATED_OK: pass
        place = I_.place_of(st, args[0])
        def side(x):
            def go(s):
                if isinstance(place, Ref): I_.write(s, place, x); a0 = args[0] if isinstance(args[0], (Ref, View)) else x
                elif isinstance(place, VIte) and place.c is d.c:
                    a0 = place.a if x is d.a else place.b
                else: a0 = x
                return call(I_, s, callee, [a0] + list(args[1:]), site, e)
            return go
        if isinstance(place, VIte) and isinstance(place.c, T):
            return I_.branch(st, place.c, lambda s: call(I_, s, callee, [place.a] + list(args[1:]), site, e),
                             lambda s: call(I_, s, callee, [place.b] + list(args[1:]), site, e))
        return I_.branch(st, d.c, side(d.a), side(d.b))
    k = kind(d)
    f = METHODS.get((k, name))
    if f:
        return f(I_, st, args, d, callee, site, e)
    if isinstance(d, Opq):
        h = I_.opaque.get((d.tag, name)) or I_.opaque.get(('*', name))
        if h: return h(I_, st, d, args)
        if (callee.get('trait') or '').endswith('Hasher') or 'hash' in callee['path']: pass
    f = METHODS.get(('any', name))
    if f:
        r = f(I_, st, args, d, callee, site, e)
        if r is not NotImplemented: return r
    # iterator adapters on collections / ranges / crate iterators
    if (callee.get('trait') or '').startswith(('core::iter::traits', 'itertools')) and k in ('seq', 'map', 'range', 'adt', 'opt'):
        f = METHODS.get(('stream', name))
        if f:
            if k == 'adt' and is_crate(d.path) and not I_.dispatch('core::iter::traits::iterator::Iterator', 'next', d): return NotImplemented
            s = stream(I_, st, args[0] if k != 'range' else d)
            if isinstance(s, Stream): return f(I_, st, [s] + list(args[1:]), s, callee, site, e)
            return s
    return NotImplemented
GATED_OK = ()

def kind(d):
    if isinstance(d, T): return 'num' if d.sort in 'ir' else 'bool' if d.sort == 'b' else 'unk'
    if isinstance(d, Seq): return 'seq'
    if isinstance(d, MapV): return 'map'
    if isinstance(d, Mat): return 'mat'
    if isinstance(d, Stream): return 'stream'
    if isinstance(d, Entry): return 'entry'
    if isinstance(d, Opq): return 'opq'
    if isinstance(d, Str): return 'str'
    if isinstance(d, Tup): return 'tup'
    if isinstance(d, Adt):
        if d.path == OPTION: return 'opt'
        if d.path == RESULT: return 'res'
        if '::Range' in d.path and d.path.startswith('core::'): return 'range'
        if d.path in (DIM, CARD): return 'dim'
        if d.path.startswith('spaces::'): return 'space'
        return 'adt'
    if isinstance(d, (Clo, FnV, UFn)): return 'fn'
    if isinstance(d, RawPtr): return 'ptr'
    return 'unk'

METHODS, FREE, TRAITS, FREE_NAME = {}, {}, {}, {}
def M(kinds, names):
    def deco(f):
        for k in kinds.split():
            for n in names.split(): METHODS[(k, n)] = f
        return f
    return deco
def F(*paths):
    def deco(f):
        for p in paths: FREE[p] = f
        return f
    return deco
def TR(spec):
    def deco(f):
        for x in spec.split():
            t, n = x.split('.')
            TRAITS[(t, n)] = f
        return f
    return deco
def FN(*keys):
    def deco(f):
        for k in keys: FREE_NAME[k] = f
        return f
    return deco
def sc(I_, st, v): return I_.scalar(st, v)

# ------------------------------------------------------------------ traits
@TR('Clone.clone ToOwned.to_owned')
def _(I_, st, a, c, site, e):
    if isinstance(a[0], (Ref, VIte)):
        v = I_.read(st, a[0])
        if isinstance(v, Ref) and c['name'] == 'to_owned': v = I_.deref(st, v)
        if isinstance(v, View): v = I_.deref(st, v)
        if isinstance(v, Ref):
            # auto-deref'ed receivers clone the referent unless the clone is of a reference type
            t = tyinfo(I_, c, 0).get('s', '')
            if not t.startswith('&'): v = I_.deref(st, v)
        return v
    return I_.deref(st, a[0])
@TR('Borrow.borrow BorrowMut.borrow_mut AsRef.as_ref AsMut.as_mut Deref.deref DerefMut.deref_mut')
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[0])
    if kind(d) in ('opt', 'res') and c['name'] in ('as_ref', 'as_mut'): return NotImplemented
    return I_.place_of(st, a[0])
@F('ndarray::slice::SliceInfo::<T, Din, Dout>::new_unchecked')
def _(I_, st, a, c, site, e): return Adt('ndarray::SliceInfo', 0, 'SliceInfo', [a[0]], ['indices'])
def slice_spec(I_, st, v):
    v = I_.deref(st, v)
    if not isinstance(v, Adt) or v.path != 'ndarray::SliceInfo': return None
    q = I_.deref(st, v.fields[0])
    if not isinstance(q, Seq) or q.n.op != 'const': return None
    out = [I_.deref(st, q.at(I(i))) for i in range(int(q.n.args[0]))]
    return out if all(isinstance(x, T) and x.sort == 'i' and nonneg(x) or isinstance(x, Adt) and 'Range' in x.path and 'Slice' not in x.path for x in out) else None
def slice_bounds(I_, st, x, n, site):
    "(lo, hi) of a range, or the index, checked against n"
    if isinstance(x, T):
        bad = not_(lt(x, n)); r = x
    else:
        lo, hi = range_of(I_, st, x, n)
        if not all(nonneg(z) for z in (lo, hi)): return None     # a negative bound counts from the end
        bad = or_(lt(n, hi), lt(hi, lo)); r = (lo, hi)
    bad = not_(I_.known(st, not_(bad)))
    if bad is not FALSE: I_.panics.append((and_(conj(st.pc), bad), site, 'slice out of bounds'))
    return r
@M('seq mat', 'slice slice_mut slice_move')
def _(I_, st, a, d, c, site, e):
    sp = slice_spec(I_, st, a[1])
    p = I_.place_of(st, a[0])
    if not isinstance(p, Ref): p = Ref(st.new(d))
    if sp is None: return NotImplemented
    if isinstance(d, Seq) and d.guard is None and len(sp) == 1 and not isinstance(sp[0], T):
        b = slice_bounds(I_, st, sp[0], d.n, site)
        if b is None: return NotImplemented
        r = p.ext(('slice',) + b)
        return View(r) if c['name'] != 'slice_move' else I_.read(st, r)
    if isinstance(d, Mat) and len(sp) == 2:
        b = [slice_bounds(I_, st, x, n, site) for x, n in zip(sp, (d.nr, d.nc))]
        if None in b: return NotImplemented
        if isinstance(b[0], T) == isinstance(b[1], T): return NotImplemented
        k = ('row', b[0]) if isinstance(b[0], T) else ('col', b[1])
        lo, hi = b[1] if isinstance(b[0], T) else b[0]; n = d.nc if isinstance(b[0], T) else d.nr
        r = p.ext(k)
        if not (lo is I(0) and hi is n): r = r.ext(('slice', lo, hi))
        return View(r) if c['name'] != 'slice_move' else I_.read(st, r)
    return NotImplemented
class ZipV(Val):
    "ndarray::Zip over these producers"
    def __init__(s, parts, indexed=False): s.parts, s.indexed = tuple(parts), indexed
def zip_part(I_, st, v):
    d = I_.deref(st, v)
    if isinstance(d, Stream): return d
    if isinstance(d, Seq):
        s = stream(I_, st, v if isinstance(v, (Ref, View)) else Ref(st.new(d)))
        return s if isinstance(s, Stream) else None
    return None
@F('ndarray::zip::Zip::<(P,), D>::from', 'ndarray::zip::Zip::<(P,), D>::indexed', 'ndarray::zip::Zip::<(P0,), D>::from', 'ndarray::zip::Zip::<(P0,), D>::indexed')
def _(I_, st, a, c, site, e): return zip_new(I_, st, a, c, site, e)
def zip_new(I_, st, a, c, site, e):
    s = zip_part(I_, st, a[0])
    return unknown(I_, st, 'Zip', a, e, site) if s is None else ZipV([s], c['name'] == 'indexed')
@M('any', 'and for_each apply map_collect apply_collect fold all any')
def _(I_, st, a, d, c, site, e):
    if not isinstance(d, ZipV): return NotImplemented
    n = c['name']; first = d.parts[0]
    if n == 'and':
        s = zip_part(I_, st, a[1])
        if s is None: return unknown(I_, st, 'Zip::and', a, e, site)
        cc = I_.known(st, eq(first.length(), s.length()))
        if cc is not TRUE: I_.panics.append((and_(conj(st.pc), not_(cc)), site, 'incompatible shapes'))
        return ZipV(d.parts + (s,), d.indexed)
    def pull(s2, k):
        out = [k] if d.indexed else []
        for s in d.parts:
            g, v = s.pull(s2, add(k, s.pos) if s.pos is not I(0) else k)
            if g is not TRUE: v = I_.unk('partial producer')
            out.append(v)
        return TRUE, Tup(out)
    z = Stream(first.length(), pull)
    f = Ref(st.new(a[-1])) if not isinstance(a[-1], (Ref, FnV)) else a[-1]
    if n in ('for_each', 'apply'):
        I_.consume(st, z, lambda s2, k, item, o: I_.call_value(s2, f, list(item.items), site)); return UNIT
    if n in ('map_collect', 'apply_collect'):
        return to_seq(I_, st, Stream(z.n, lambda s2, k: (TRUE, derefv(I_, s2, I_.call_value(s2, f, list(pull(s2, k)[1].items), site)))))
    return NotImplemented
@TR('Into.into From.from TryInto.try_into')
def _(I_, st, a, c, site, e):
    v = a[0]
    d = I_.deref(st, v)
    k = kind(d)
    if c['name'] == 'from' and tyinfo(I_, c, 0).get('s', '').endswith('SliceInfoElem'): return d
    # target type
    if c['name'] == 'into': src, dst = tyinfo(I_, c, 0), tyinfo(I_, c, 1)
    else: src, dst = tyinfo(I_, c, 1), tyinfo(I_, c, 0)
    if k == 'dim':
        if d.var == 0: return d.fields[0]
        return I_.panic(st, site, 'infinite dimension')
    if isinstance(d, VIte) and isinstance(d.a, Adt) and d.a.path in (DIM, CARD):
        return METHOD_GATE(I_, st, a, c, site, e, d)
    if dst.get('path', '').startswith('crate::') or (isinstance(d, Adt) and is_crate(d.path)):
        cands = [f for f in I_.D['fns'] if f.get('name') == 'from' and f.get('trait') == 'core::convert::From' and
                 I_.T[f['implself']]['s'] == dst.get('s') and I_.T[f['traitargs'][1]]['s'] == src.get('s')]
        if len(cands) == 1: return I_.call_fn(st, cands[0]['key'], [v], site)
        cands = [f for f in I_.D['fns'] if f.get('name') == 'into' and f.get('trait') == 'core::convert::Into' and I_.T[f['implself']]['s'] == src.get('s')]
        if len(cands) == 1: return I_.call_fn(st, cands[0]['key'], [v], site)
        if src.get('s') == dst.get('s') and src: return v
        if dst.get('k') != 'param': return NotImplemented
    s = dst.get('s', '')
    if isinstance(d, T):
        return I_.cast(st, d, s) if s else d
    if k in ('seq', 'map', 'str', 'mat'): return d
    if k == 'opq': return d
    return v
def METHOD_GATE(I_, st, a, c, site, e, d):
    return I_.branch(st, d.c, lambda s: call(I_, s, c, [d.a] + list(a[1:]), site, e), lambda s: call(I_, s, c, [d.b] + list(a[1:]), site, e))
@TR('IntoIterator.into_iter')
def _(I_, st, a, c, site, e): return stream(I_, st, a[0])
@TR('PartialEq.eq PartialEq.ne')
def _(I_, st, a, c, site, e):
    r = veq(I_, st, a[0], a[1])
    return r if c['name'] == 'eq' else not_(r)
@TR('PartialOrd.lt PartialOrd.le PartialOrd.gt PartialOrd.ge')
def _(I_, st, a, c, site, e):
    x, y = sc(I_, st, a[0]), sc(I_, st, a[1])
    return {'lt': lt(x, y), 'le': le(x, y), 'gt': lt(y, x), 'ge': le(y, x)}[c['name']]
ORD = 'core::cmp::Ordering'
@TR('PartialOrd.partial_cmp Ord.cmp')
def _(I_, st, a, c, site, e):
    x, y = I_.deref(st, a[0]), I_.deref(st, a[1])
    if isinstance(x, T) and isinstance(y, T):
        r = vite(lt(x, y), Adt(ORD, 0, 'Less', ()), vite(eq(x, y), Adt(ORD, 1, 'Equal', ()), Adt(ORD, 2, 'Greater', ())))
    else: r = Opq(app('lexcmp', [digest(I_, st, x), digest(I_, st, y)], 'o'), 'ordering')
    return some(r) if c['name'] == 'partial_cmp' else r
@TR('Ord.max Ord.min')
def _(I_, st, a, c, site, e):
    x, y = sc(I_, st, a[0]), sc(I_, st, a[1])
    return (max2 if c['name'] == 'max' else min2)(x, y)
@TR('Default.default')
def _(I_, st, a, c, site, e):
    t = tyinfo(I_, c, 0); s = t.get('s', '')
    if s in ('f64', 'f32'): return R(0)
    if s in ('usize', 'isize', 'u8', 'i32', 'u32', 'u64', 'i64'): return I(0)
    if s == 'bool': return FALSE
    if s == '()': return UNIT
    p = t.get('path', '')
    if p.endswith('::Vec') or 'ArrayBase' in p: return Seq(I(0), lambda j: BOT)
    if p == OPTION: return none()
    if p.endswith('HashMap'): return MapV(I(0), lambda j: FALSE, lambda j: R(0))
    if p.endswith('HashSet'): return MapV(I(0), lambda j: FALSE, lambda j: UNIT, kind='set')
    return NotImplemented
OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}
def elementwise(I_, st, op, x, y, site):
    if isinstance(x, T) and isinstance(y, T): return I_.binop(st, OPS[op], x, y)
    if isinstance(x, Seq) and isinstance(y, T): return Seq(x.n, lambda j: I_.binop(st, OPS[op], x.at(j), y))
    if isinstance(x, T) and isinstance(y, Seq): return Seq(y.n, lambda j: I_.binop(st, OPS[op], x, y.at(j)))
    if isinstance(x, Seq) and isinstance(y, Seq):
        same_len(I_, st, x, y, site)
        return Seq(x.n, lambda j: I_.binop(st, OPS[op], x.at(j), bc(x, y, j)))
    if isinstance(x, Mat) and isinstance(y, T): return Mat(x.nr, x.nc, lambda i, j: I_.binop(st, OPS[op], x.at(i, j), y))
    return None
def bc(x, y, j):
    if x.n is y.n: return y.at(j)
    return y.at(ite(eq(y.n, I(1)), I(0), j))
def same_len(I_, st, x, y, site):
    c = I_.known(st, eq(x.n, y.n))
    if c is not TRUE: I_.panics.append((and_(conj(st.pc), not_(c), not_(eq(y.n, I(1)))), site, 'incompatible shapes'))
@TR('Add.add Sub.sub Mul.mul Div.div Rem.rem')
def _(I_, st, a, c, site, e):
    x, y = I_.deref(st, a[0]), I_.deref(st, a[1])
    if isinstance(x, VIte): return METHOD_GATE(I_, st, [x] + a[1:], c, site, e, x)
    if isinstance(y, VIte): return I_.branch(st, y.c, lambda s: call(I_, s, c, [x, y.a], site, e), lambda s: call(I_, s, c, [x, y.b], site, e))
    if isinstance(x, Adt) and x.path in (DIM, CARD) and isinstance(y, Adt):
        if x.var == 1 or y.var == 1: return infinite(x.path)
        l, r = x.fields[0], y.fields[0]
        if c['name'] == 'add': return finite(x.path, add(l, r))
        if c['name'] == 'mul': return finite(x.path, ite(eq(l, I(0)), r, ite(eq(r, I(0)), l, mul(l, r))))
    r = elementwise(I_, st, c['name'], x, y, site)
    return r if r is not None else text_add(I_, st, a, c, site, e) if c['name'] == 'add' else NotImplemented
@TR('Neg.neg')
def _(I_, st, a, c, site, e):
    x = I_.deref(st, a[0])
    if isinstance(x, T): return neg(x)
    if isinstance(x, Seq): return Seq(x.n, lambda j: neg(x.at(j)))
    return NotImplemented
@TR('AddAssign.add_assign SubAssign.sub_assign MulAssign.mul_assign DivAssign.div_assign RemAssign.rem_assign')
def _(I_, st, a, c, site, e):
    x, y = I_.deref(st, a[0]), I_.deref(st, a[1])
    r = elementwise(I_, st, c['name'][:-7], x, y, site)
    p = I_.place_of(st, a[0])
    if r is None and c['name'] == 'add_assign': return text_add(I_, st, a, c, site, e)
    if r is None or not isinstance(p, (Ref, VIte)): return NotImplemented
    I_.write(st, p, r)
    return UNIT
@TR('Index.index IndexMut.index_mut')
def _(I_, st, a, c, site, e):
    place = I_.place_of(st, a[0])
    v = I_.deref(st, a[0])
    if isinstance(v, VIte) and not isinstance(place, VIte):
        return NotImplemented
    if not isinstance(place, Ref):
        if isinstance(place, VIte):
            return I_.branch(st, place.c, lambda s: call(I_, s, c, [place.a, a[1]], site, e), lambda s: call(I_, s, c, [place.b, a[1]], site, e))
        place = Ref(st.new(v))
    i = I_.deref(st, a[1])
    if isinstance(v, (Str, Opq)) and isinstance(i, Adt) and i.path.endswith('RangeFull') and text_arg(I_, st, v) is not None: return place
    if isinstance(v, Seq):
        if isinstance(i, Seq): i = i.at(I(0))
        if isinstance(i, T):
            cc = I_.known(st, lt(i, v.n))
            if i.sort == 'i' and not nonneg(i): cc = and_(cc, le(I(0), i))
            if cc is not TRUE:
                I_.panics.append((and_(conj(st.pc), not_(cc)), site, 'index out of bounds'))
            return place.ext(('i', i))
        if isinstance(i, Adt) and 'Range' in i.path:
            lo, hi = range_of(I_, st, i, v.n)
            I_.panics.append((and_(conj(st.pc), or_(lt(v.n, hi), lt(hi, lo))), site, 'slice out of bounds'))
            return place.ext(('slice', lo, hi))
    if isinstance(v, Mat):
        if isinstance(i, Tup): r_, c_ = [sc(I_, st, x) for x in i.items]
        elif isinstance(i, Seq): r_, c_ = sc(I_, st, i.at(I(0))), sc(I_, st, i.at(I(1)))
        else: return NotImplemented
        ok_ = and_(lt(r_, v.nr), lt(c_, v.nc))
        if ok_ is not TRUE: I_.panics.append((and_(conj(st.pc), not_(I_.known(st, ok_))), site, 'index out of bounds'))
        return place.ext(('ij', r_, c_))
    if isinstance(v, MapV) and isinstance(i, T):
        cc = I_.known(st, v.mem(i))
        if cc is not TRUE: I_.panics.append((and_(conj(st.pc), not_(cc)), site, 'missing map key'))
        return place.ext(('k', i))
    if isinstance(v, Adt) and v.path.endswith('ProductSpace'): return call(I_, st, c, [place.ext(('f', 0, None)), a[1]], site, e)
    if isinstance(v, Adt) and is_crate(v.path):
        f = I_.dispatch('core::ops::index::Index', 'index', v)
        if f: return I_.call_fn(st, f['key'], a, site)
    return NotImplemented
def range_of(I_, st, i, n):
    p = i.path.split('::')[-1]
    f = [sc(I_, st, x) for x in i.fields]
    if p == 'Range': return f[0], f[1]
    if p == 'RangeFrom': return f[0], n
    if p == 'RangeTo': return I(0), f[0]
    if p == 'RangeFull': return I(0), n
    if p == 'RangeInclusive': return f[0], add(f[1], I(1))
    if p == 'RangeToInclusive': return I(0), add(f[0], I(1))
    return I(0), n
@TR('Extend.extend')
def _(I_, st, a, c, site, e):
    p = I_.place_of(st, a[0]); v = I_.read(st, p)
    s = stream(I_, st, a[1])
    if not isinstance(s, Stream): return unknown(I_, st, 'extend', [a[0]], None, site)
    if isinstance(v, Seq) and not isinstance(v.tag, absint.Slot):
        w = to_seq(I_, st, s)
        if isinstance(w, Seq) and w.guard is None and v.guard is None:
            n1 = v.n
            I_.write(st, p, Seq(add(n1, w.n), lambda j: vite(lt(j, n1), v.at(j), derefv(I_, st, w.at(sub(j, n1)))), ordered=v.ordered and w.ordered))
            return UNIT
    if isinstance(v, (MapV, Seq)):
        def step(s2, k, item, ordered):
            if isinstance(v, MapV):
                it = I_.deref(s2, item)
                if v.kind == 'map' and isinstance(it, Tup): map_insert(I_, s2, p, sc(I_, s2, it.items[0]), derefv(I_, s2, it.items[1]))
                else: map_insert(I_, s2, p, sc(I_, s2, it), UNIT)
            else: push(I_, s2, p, derefv(I_, s2, item))
        I_.consume(st, s, step)
        return UNIT
    return unknown(I_, st, 'extend', [a[0]], None, site)
def derefv(I_, st, v):
    "scalars are copied out of references"
    d = I_.deref(st, v)
    return d if isinstance(d, T) else v
@TR('FromIterator.from_iter')
def _(I_, st, a, c, site, e): return collect_into(I_, st, stream(I_, st, a[0]), tyinfo(I_, c, 0), site)
@TR('Sum.sum Product.product')
def _(I_, st, a, c, site, e):
    s = stream(I_, st, a[0])
    return METHODS[('stream', c['name'])](I_, st, [s], s, c, site, e) if isinstance(s, Stream) else s
@TR('Try.branch')
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[0])
    if isinstance(d, VIte): return METHOD_GATE(I_, st, a, c, site, e, d)
    if isinstance(d, Adt) and d.path == RESULT: return cont(d.fields[0]) if d.var == 0 else brk(err(d.fields[0]))
    if isinstance(d, Adt) and d.path == OPTION: return cont(d.fields[0]) if d.var == 1 else brk(none())
    return NotImplemented
@TR('FromResidual.from_residual')
def _(I_, st, a, c, site, e): return a[0]
@TR('Try.from_output')
def _(I_, st, a, c, site, e): return ok(a[0])
@TR('Fn.call FnMut.call_mut FnOnce.call_once')
def _(I_, st, a, c, site, e): return I_.call_value(st, a[0], list(a[1].items), site)
@TR('Drop.drop')
def _(I_, st, a, c, site, e): return UNIT
@TR('Hasher.finish')
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[0])
    return app('hash_finish', [d.t], 'i', 'hash') if isinstance(d, Opq) else NotImplemented
@TR('Hasher.write_isize Hasher.write_usize Hasher.write_u64 Hasher.write_i64 Hasher.write_u8 Hasher.write_i32 Hasher.write_u32')
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[0]); p = I_.place_of(st, a[0])
    if not isinstance(d, Opq) or not isinstance(p, Ref): return NotImplemented
    I_.write(st, p, Opq(app('hash_' + c['name'], [d.t, sc(I_, st, a[1])], 'o'), d.tag))
    return UNIT
@TR('Hash.hash')
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[1]); p = I_.place_of(st, a[1]); x = I_.deref(st, a[0])
    if not isinstance(d, Opq) or not isinstance(p, Ref) or not isinstance(x, T): return NotImplemented
    ty = tyinfo(I_, c, 0).get('s', 'isize')
    I_.write(st, p, Opq(app('hash_write_' + ty, [d.t, x], 'o'), d.tag))
    return UNIT
@TR('BuildHasher.build_hasher')
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[0])
    return Opq(app('hasher', [d.t], 'o'), 'hasher') if isinstance(d, Opq) else NotImplemented
@TR('ExactSizeIterator.len')
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[0])
    if isinstance(d, Stream) and d.n is not None and not d.guarded: return d.length()
    return NotImplemented

# ------------------------------------------------------------------ free functions
@F('core::mem::replace', 'core::mem::swap', 'core::mem::take', 'core::mem::drop')
def _(I_, st, a, c, site, e):
    n = c['name']
    if n == 'drop': return UNIT
    p = I_.place_of(st, a[0]) if not isinstance(a[0], Ref) else a[0]
    v = I_.read(st, p)
    while isinstance(v, Ref): p = v; v = I_.read(st, p)
    if n == 'replace': I_.write(st, p, a[1]); return v
    if n == 'swap':
        q = a[1]; w = I_.read(st, q)
        while isinstance(w, Ref): q = w; w = I_.read(st, q)
        I_.write(st, p, w); I_.write(st, q, v); return UNIT
    d = None
    if isinstance(v, Seq): d = Seq(I(0), lambda j: BOT)
    elif isinstance(v, MapV): d = MapV(I(0), lambda j: FALSE, v.get0, kind=v.kind)
    elif isinstance(v, Adt) and v.path == OPTION or isinstance(v, VIte): d = none()
    elif isinstance(v, T): d = FALSE if v.sort == 'b' else const(0, v.sort)
    elif isinstance(v, Adt) and is_crate(v.path):
        f = I_.dispatch('core::default::Default', 'default', v)
        d = I_.call_fn(st, f['key'], []) if f else None
    if d is None: return NotImplemented
    I_.write(st, p, d)
    return v
@F('core::hint::must_use', 'core::convert::identity', 'core::mem::maybe_uninit::MaybeUninit::<T>::new', 'core::hint::black_box',
   'alloc::boxed::Box::<T>::new', 'core::mem::manually_drop::ManuallyDrop::<T>::new', 'core::iter::traits::iterator::Iterator::by_ref')
def _(I_, st, a, c, site, e): return a[0]
@F('alloc::boxed::Box::<T>::new_uninit')
def _(I_, st, a, c, site, e): return Opq(app('box', [], 'o'), 'uninit box')
@F('alloc::intrinsics::write_box_via_move')
def _(I_, st, a, c, site, e): return a[1]
@F('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::slice::<impl [T]>::into_vec')
def _(I_, st, a, c, site, e): return I_.deref(st, a[0])
@F('alloc::vec::from_elem')
def _(I_, st, a, c, site, e):
    x = a[0]
    return Seq(sc(I_, st, a[1]), lambda j: x)
@F('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity')
def _(I_, st, a, c, site, e): return Seq(I(0), lambda j: BOT)
@FN(('std', 'new'), ('std', 'with_capacity'), ('std', 'with_capacity_and_hasher'), ('std', 'with_hasher'))
def _(I_, st, a, c, site, e):
    p = c['path']
    if 'HashMap' in p or 'BTreeMap' in p: return MapV(I(0), lambda j: FALSE, lambda j: R(0))
    if 'HashSet' in p: return MapV(I(0), lambda j: FALSE, lambda j: UNIT, kind='set')
    return unknown(I_, st, p, a, e, site)
@F('core::iter::sources::once::once')
def _(I_, st, a, c, site, e):
    x = a[0]
    return Stream(I(1), lambda s, k: (TRUE, x))
@F('core::iter::sources::empty::empty')
def _(I_, st, a, c, site, e): return Stream(I(0), lambda s, k: (FALSE, BOT))
@F('core::iter::sources::repeat::repeat')
def _(I_, st, a, c, site, e):
    x = a[0]
    return Stream(None, lambda s, k: (TRUE, x))
@F('core::iter::sources::repeat_n::repeat_n')
def _(I_, st, a, c, site, e):
    x = a[0]
    return Stream(sc(I_, st, a[1]), lambda s, k: (TRUE, x))
@F('core::iter::sources::from_fn::from_fn')
def _(I_, st, a, c, site, e): return I_.unk('iter::from_fn')
@F('core::iter::adapters::zip::zip')
def _(I_, st, a, c, site, e):
    s = stream(I_, st, a[0])
    return METHODS[('stream', 'zip')](I_, st, [s, a[1]], s, c, site, e) if isinstance(s, Stream) else s
@F('core::ops::range::RangeInclusive::<Idx>::new')
def _(I_, st, a, c, site, e): return Adt('core::ops::range::RangeInclusive', 0, 'RangeInclusive', (a[0], a[1]))
@F('core::cmp::max', 'core::cmp::min')
def _(I_, st, a, c, site, e): return (max2 if c['name'] == 'max' else min2)(sc(I_, st, a[0]), sc(I_, st, a[1]))
@F('std::panicking::begin_panic', 'core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::unreachable_display', 'core::panicking::panic_explicit',
   'core::panicking::panic_display', 'std::rt::panic_fmt', 'core::panicking::assert_failed', 'std::process::exit', 'std::process::abort')
def _(I_, st, a, c, site, e): return I_.panic(st, site, 'panic')
@FN(('core', 'new_display'), ('core', 'new_debug'), ('core', 'new_lower_exp'))
def _(I_, st, a, c, site, e):
    x = I_.deref(st, a[0]); t = digest(I_, st, x)
    how = {'new_display': '', 'new_debug': '?'}.get(c['name'], c['name'])
    if not how and (isinstance(x, Str) or isinstance(x, Opq) and x.tag == 'string'): return Opq(t, 'fmtarg')
    return Opq(app('arg' + how, [t], 'o'), 'fmtarg')
def fmt_template(hx):
    "the pieces of a format template: a literal, or (argument, how it is written)"
    b = bytes.fromhex(hx); i = nxt = 0; out = []
    while b[i]:
        c = b[i]; i += 1
        if c <= 0x80:
            n = c
            if c == 0x80: n = b[i] | b[i + 1] << 8; i += 2
            out.append(b[i:i + n].decode()); i += n
        else:
            w = sum(k for bit, k in ((1, 4), (2, 2), (4, 2)) if c & bit)
            spec = '%02x' % (c & 0x37) + b[i:i + w].hex() if c & 0x37 else ''; i += w
            if c & 8: nxt = b[i] | b[i + 1] << 8; i += 2
            out.append((nxt, spec)); nxt += 1
    return out
def is_app(t, nm): return t.op == 'app' and t.args[0] == nm
def text_of(pieces):
    "one string from literals and terms: literals joined, nested strings spliced"
    out = []
    for p in pieces:
        for q in (p.args[2:] if isinstance(p, T) and is_app(p, 'fmt') else [p]):
            if isinstance(q, T) and q.op == 'app' and q.args[0].startswith('str:'): q = q.args[0][4:]
            if q == '': continue
            if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
            else: out.append(q)
    return app('fmt', [app('str:' + q, [], 'o') if isinstance(q, str) else q for q in out], 'o')
@FN(('core', 'new'), ('core', 'from_str'), ('core', 'new_const'), ('core', 'new_v1'))
def _(I_, st, a, c, site, e):
    if 'fmt::' not in c['path']: return unknown(I_, st, c['path'], a, e, site)
    ds = [I_.deref(st, x) for x in a]
    if c['name'] == 'from_str' and isinstance(ds[0], Str): return Opq(text_of([ds[0].s]), 'fmt')
    if c['name'] == 'new' and len(ds) == 2 and isinstance(ds[0], Str) and isinstance(ds[1], Seq) and ds[1].n.op == 'const':
        try: ps = fmt_template(ds[0].s)
        except (ValueError, IndexError): return I_.unk('format template')
        n = int(ds[1].n.args[0]); out = []
        for p in ps:
            if isinstance(p, str): out.append(p)
            elif p[0] < n:
                t = digest(I_, st, ds[1].at(I(p[0])))
                out.append(app('spec:' + p[1], [t], 'o') if p[1] else t)
            else: return I_.unk('format template')
        return Opq(text_of(out), 'fmt')
    return I_.unk('format arguments')
@F('alloc::fmt::format')
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[0])
    return Opq(d.t, 'string') if isinstance(d, Opq) else NotImplemented
def put_text(I_, st, f, t, site, e):
    "append text to a formatter or a string; writing to a formatter may fail"
    d = I_.deref(st, f)
    if isinstance(d, Str): d = Opq(text_of([d.s]), 'string')
    if not isinstance(d, Opq) or d.tag not in ('formatter', 'string') or not isinstance(f, Ref): return None
    I_.write(st, f, Opq(text_of([d.t, t]), d.tag))
    return absint.vite(sym('formatter.ok', 'b'), ok(UNIT), err(Opq(app('fmt_error', [], 'o'), 'error'))) if d.tag == 'formatter' else ok(UNIT)
def text_arg(I_, st, v):
    d = I_.deref(st, v)
    if isinstance(d, Str): return app('str:' + d.s, [], 'o')
    if isinstance(d, Opq) and d.tag in ('string', 'fmt'): return d.t
    if isinstance(d, VIte):
        a, b = text_arg(I_, st, d.a), text_arg(I_, st, d.b)
        return ite(d.c, a, b) if a is not None and b is not None else None
    return None
@TR('Write.write_fmt Write.write_str Display.fmt')
def _(I_, st, a, c, site, e):
    x, f = (a[0], a[1]) if c['name'] == 'fmt' else (a[1], a[0])
    t = text_arg(I_, st, x)
    r = put_text(I_, st, f, t, site, e) if t is not None else None
    return NotImplemented if r is None else r
@F('alloc::string::String::new', 'alloc::string::String::with_capacity')
def _(I_, st, a, c, site, e): return Opq(text_of([]), 'string')
@TR('Write.write_char')
def _(I_, st, a, c, site, e):
    x = I_.deref(st, a[1])
    r = put_text(I_, st, a[0], app('str:' + x.s, [], 'o'), site, e) if isinstance(x, Str) else None
    return NotImplemented if r is None else r
@M('opq str', 'push write_char')
def _(I_, st, a, d, c, site, e):
    r = TRAITS[('Write', 'write_char')](I_, st, a, c, site, e)
    return r if r is NotImplemented or c['name'] != 'push' else UNIT
def text_add(I_, st, a, c, site, e):
    x, y = text_arg(I_, st, a[0]), text_arg(I_, st, a[1])
    if x is None or y is None: return NotImplemented
    if c['name'] == 'add': return Opq(text_of([x, y]), 'string')
    return NotImplemented if put_text(I_, st, a[0], y, site, e) is None else UNIT
@M('seq', 'join')
def _(I_, st, a, d, c, site, e):
    if d.n.op != 'const' or d.guard is not None or len(a) > 2: return NotImplemented
    sep = text_arg(I_, st, a[1]) if len(a) == 2 else app('str:', [], 'o')
    ts = [text_arg(I_, st, d.at(I(i))) for i in range(int(d.n.args[0]))]
    if c['name'] == 'concat': sep = app('str:', [], 'o')
    if sep is None or not ts or None in ts: return NotImplemented
    out = [ts[0]]
    for t in ts[1:]: out += [sep, t]
    return Opq(text_of(out), 'string')
@M('opq str', 'write_fmt write_str push_str pad')
def _(I_, st, a, d, c, site, e):
    t = text_arg(I_, st, a[1])
    r = put_text(I_, st, a[0], t, site, e) if t is not None else None
    if r is None: return NotImplemented
    return UNIT if c['name'] == 'push_str' else r
@M('opq', 'len is_empty')
def _(I_, st, a, d, c, site, e):
    if d.tag != 'string': return NotImplemented
    n = app('strlen', [d.t], 'i')
    return n if c['name'] == 'len' else eq(n, I(0))
@M('str', 'to_string to_owned into to_lowercase')
def _(I_, st, a, d, c, site, e): return Opq(app('str:' + d.s, [], 'o'), 'string')
@M('num', 'to_string')
def _(I_, st, a, d, c, site, e): return Opq(app('fmt', [app('arg', [d], 'o')], 'o'), 'string')
@M('opq', 'as_str to_string into_boxed_str as_bytes clone')
def _(I_, st, a, d, c, site, e): return d

# ------------------------------------------------------------------ numbers
@M('num', 'abs sqrt exp cos sin tan sinh cosh tanh floor ceil round trunc ln atan asin acos')
def _(I_, st, a, d, c, site, e):
    return fn1(c['name'], d) if d.sort == 'r' or c['name'] == 'abs' else NotImplemented
@M('num', 'ln_1p')
def _(I_, st, a, d, c, site, e): return fn1('ln', add(R(1), d))
@M('num', 'exp_m1')
def _(I_, st, a, d, c, site, e): return sub(fn1('exp', d), R(1))
@M('num', 'exp2')
def _(I_, st, a, d, c, site, e): return mk('powf', (R(2), d), 'r')
@M('num', 'log10 log2 log')
def _(I_, st, a, d, c, site, e): return mk(c['name'], tuple([d] + [sc(I_, st, x) for x in a[1:]]), 'r')
@M('num', 'powi pow')
def _(I_, st, a, d, c, site, e):
    n = sc(I_, st, a[1])
    return ipow(d, n)
@M('num', 'powf')
def _(I_, st, a, d, c, site, e):
    y = sc(I_, st, a[1])
    if y.op == 'const' and y.args[0].denominator == 1: return ipow(d, I(int(y.args[0])))
    if y.op == 'const' and y.args[0] == Fraction(1, 2): return fn1('sqrt', d)
    if y.op == 'i2r': return ipow(d, y.args[0])
    if y.sort == 'u': return y
    return mk('powf', (d, y), 'r')
@M('num', 'max min')
def _(I_, st, a, d, c, site, e): return (max2 if c['name'] == 'max' else min2)(d, sc(I_, st, a[1]))
@M('num', 'clamp')
def _(I_, st, a, d, c, site, e): return min2(max2(d, sc(I_, st, a[1])), sc(I_, st, a[2]))
@M('num', 'mul_add')
def _(I_, st, a, d, c, site, e): return add(mul(d, sc(I_, st, a[1])), sc(I_, st, a[2]))
@M('num', 'recip')
def _(I_, st, a, d, c, site, e): return div(R(1), d)
@M('num', 'hypot')
def _(I_, st, a, d, c, site, e):
    y = sc(I_, st, a[1])
    return fn1('sqrt', add(mul(d, d), mul(y, y)))
@M('num', 'signum')
def _(I_, st, a, d, c, site, e): return mk('signum', (d,), d.sort)
@M('num', 'is_nan')
def _(I_, st, a, d, c, site, e): return mk('isnan', (d,), 'b') if d.sort == 'r' else FALSE
@M('num', 'is_finite is_infinite is_normal')
def _(I_, st, a, d, c, site, e): return mk(c['name'], (d,), 'b')
@M('num', 'is_sign_negative is_negative')
def _(I_, st, a, d, c, site, e): return lt(d, const(0, d.sort))
@M('num', 'is_sign_positive is_positive')
def _(I_, st, a, d, c, site, e): return lt(const(0, d.sort), d)
@M('num', 'wrapping_div wrapping_rem wrapping_div_euclid wrapping_rem_euclid div_ceil div_floor next_multiple_of')
def _(I_, st, a, d, c, site, e):
    y = sc(I_, st, a[1]); n = c['name']
    if d.sort != 'i' or y.sort != 'i': return NotImplemented
    z = I_.known(st, eq(y, I(0)))
    if z is not FALSE: I_.panics.append((and_(conj(st.pc), z), site, 'division by zero'))
    if n.startswith('wrapping'): return idiv(('e' if 'euclid' in n else 't') + ('div' if '_div' in n else 'rem'), d, y)
    if not (nonneg(d) and nonneg(y)): return NotImplemented
    if n == 'div_floor': return idiv('tdiv', d, y)
    q = idiv('tdiv', add(d, sub(y, I(1))), y)
    return q if n == 'div_ceil' else mul(q, y)
@M('num', 'checked_div_euclid checked_rem_euclid')
def _(I_, st, a, d, c, site, e):
    y = sc(I_, st, a[1])
    if d.sort != 'i': return NotImplemented
    return opt(not_(eq(y, I(0))), idiv('ediv' if 'div' in c['name'] else 'erem', d, y))
@M('num', 'div_euclid rem_euclid')
def _(I_, st, a, d, c, site, e):
    y = sc(I_, st, a[1])
    if d.sort == 'r': return NotImplemented
    z = I_.known(st, eq(y, I(0)))
    if z is not FALSE: I_.panics.append((and_(conj(st.pc), z), site, 'division by zero'))
    return idiv('ediv' if c['name'] == 'div_euclid' else 'erem', d, y)
def int_type(c):
    m = re.search(r'<impl (\w+)>', c['path'])
    return INTS.get(m.group(1), INTS['usize']) if m else INTS['usize']
@M('num', 'wrapping_add wrapping_sub wrapping_mul saturating_add saturating_sub saturating_mul unchecked_add unchecked_sub unchecked_mul checked_add checked_sub checked_mul overflowing_add')
def _(I_, st, a, d, c, site, e):
    y = sc(I_, st, a[1])
    if d.sort != 'i' or y.sort != 'i': return NotImplemented
    how, op = c['name'].split('_')
    r = {'add': add, 'sub': sub, 'mul': mul}[op](d, y)
    lo, hi = int_type(c); narrow = hi < 2 ** 62
    low = lo == 0 and op == 'sub' and not nonneg(r) or lo < 0 and narrow
    if how == 'saturating':
        if low: r = max2(r, I(lo))
        return min2(r, I(hi)) if narrow else r
    if how == 'checked':
        ok = and_(le(I(lo), r) if low else TRUE, le(r, I(hi)) if narrow else TRUE)
        return opt(ok, r)
    if how == 'wrapping' and (low or narrow):
        m = hi - lo + 1
        return idiv('erem', r, I(m)) if lo == 0 else sub(idiv('erem', sub(r, I(lo)), I(m)), I(-lo))
    if how == 'overflowing': return NotImplemented
    return r
@M('num', 'next_power_of_two')
def _(I_, st, a, d, c, site, e): return mk('npow2', (d,), 'i') if d.op != 'const' else I(1 << max(0, int(d.args[0]) - 1).bit_length())
@M('num', 'is_power_of_two')
def _(I_, st, a, d, c, site, e): return and_(lt(I(0), d), eq(mk('npow2', (d,), 'i'), d))
@M('num', 'checked_div checked_rem')
def _(I_, st, a, d, c, site, e):
    y = sc(I_, st, a[1])
    return opt(not_(eq(y, I(0))), idiv('tdiv' if 'div' in c['name'] else 'trem', d, y))
@M('num', 'abs_diff')
def _(I_, st, a, d, c, site, e): return fn1('abs', sub(d, sc(I_, st, a[1])))
@M('num', 'copied cloned to_owned')
def _(I_, st, a, d, c, site, e): return d
@M('num', 'assume_init assume_init_ref assume_init_read')
def _(I_, st, a, d, c, site, e): return d
@M('num', 'write')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); I_.write(st, p, a[1]); return p
@M('bool', 'then')
def _(I_, st, a, d, c, site, e):
    return I_.branch(st, d, lambda s: some(I_.call_value(s, a[1], [], site)), lambda s: none())
@M('bool', 'then_some')
def _(I_, st, a, d, c, site, e): return opt(d, a[1])
@M('bool', 'not')
def _(I_, st, a, d, c, site, e): return not_(d)
for _nm, _f in (('total_cmp', None),):
    @M('num', 'total_cmp')
    def _(I_, st, a, d, c, site, e): return TRAITS[('Ord', 'cmp')](I_, st, a, dict(c, name='cmp'), site, e)

# ------------------------------------------------------------------ Option / Result
def cv(I_, st, f, args, site): return I_.call_value(st, f, args, site)
@M('opt res', 'map')
def _(I_, st, a, d, c, site, e):
    g = d.path == OPTION and d.var == 1 or d.path == RESULT and d.var == 0
    if not g: return d
    x = cv(I_, st, a[1], [d.fields[0]], site)
    return BOT if st.dead else d.with_(0, x)
@M('res', 'map_err')
def _(I_, st, a, d, c, site, e):
    if d.var == 0: return d
    x = cv(I_, st, a[1], [d.fields[0]], site)
    return BOT if st.dead else err(x)
@M('opt res', 'and_then')
def _(I_, st, a, d, c, site, e):
    if (d.path == OPTION) == (d.var == 1): return cv(I_, st, a[1], [d.fields[0]], site)
    return d
@M('opt res', 'and')
def _(I_, st, a, d, c, site, e): return a[1] if good(d) else d
@M('opt res', 'or')
def _(I_, st, a, d, c, site, e): return d if good(d) else a[1]
@M('opt res', 'or_else')
def _(I_, st, a, d, c, site, e): return d if good(d) else cv(I_, st, a[1], [d.fields[0]] if d.path == RESULT else [], site)
def good(d): return (d.path == OPTION) == (d.var == 1)
@M('opt res', 'unwrap expect')
def _(I_, st, a, d, c, site, e):
    if good(d): return d.fields[0]
    return I_.panic(st, site, 'unwrap of an absent value')
@M('opt res', 'unwrap_unchecked')
def _(I_, st, a, d, c, site, e):
    if good(d): return d.fields[0]
    I_.panics.append((conj(st.pc), site, 'unwrap_unchecked of an absent value')); st.dead = True
    return BOT
@F('core::hint::unreachable_unchecked', 'core::hint::assert_unchecked')
def _(I_, st, a, c, site, e):
    cc = not_(sc(I_, st, a[0])) if c['name'] == 'assert_unchecked' else TRUE
    I_.panics.append((and_(conj(st.pc), cc), site, 'unreachable code reached'))
    if cc is TRUE: st.dead = True; return BOT
    return UNIT
@M('seq', 'set_len')
def _(I_, st, a, d, c, site, e):
    if d.guard is not None or isinstance(d.tag, absint.Slot): return I_.unk('set_len')
    n = sc(I_, st, a[1]); u = sym('uninit#%d' % next(absint_cells), 'o'); old = d.n
    es = d.at(I(0)); es = es.sort if isinstance(es, T) and es.sort in 'ri' else 'r'
    I_.write(st, I_.place_of(st, a[0]), Seq(n, lambda j: vite(lt(j, old), d.at(j), app('uninit', [u, j], es)) if old is not I(0) else app('uninit', [u, j], es)))
    return UNIT
@M('res', 'unwrap_err expect_err')
def _(I_, st, a, d, c, site, e):
    if d.var == 1: return d.fields[0]
    return I_.panic(st, site, 'unwrap_err of a value')
@M('opt res', 'unwrap_or')
def _(I_, st, a, d, c, site, e): return d.fields[0] if good(d) else a[1]
@M('opt res', 'unwrap_or_else')
def _(I_, st, a, d, c, site, e): return d.fields[0] if good(d) else cv(I_, st, a[1], list(d.fields) if d.path == RESULT else [], site)
@M('opt res', 'unwrap_or_default')
def _(I_, st, a, d, c, site, e):
    if good(d): return d.fields[0]
    return TRAITS[('Default', 'default')](I_, st, [], dict(c, args=c['args'][:1]), site, e)
@M('opt res', 'map_or')
def _(I_, st, a, d, c, site, e): return cv(I_, st, a[2], [d.fields[0]], site) if good(d) else a[1]
@M('opt res', 'map_or_else')
def _(I_, st, a, d, c, site, e): return cv(I_, st, a[2], [d.fields[0]], site) if good(d) else cv(I_, st, a[1], list(d.fields) if d.path == RESULT else [], site)
@M('opt', 'ok_or')
def _(I_, st, a, d, c, site, e): return ok(d.fields[0]) if good(d) else err(a[1])
@M('opt', 'ok_or_else')
def _(I_, st, a, d, c, site, e):
    if good(d): return ok(d.fields[0])
    x = cv(I_, st, a[1], [], site)
    return BOT if st.dead else err(x)
@M('res', 'ok')
def _(I_, st, a, d, c, site, e): return some(d.fields[0]) if d.var == 0 else none()
@M('res', 'err')
def _(I_, st, a, d, c, site, e): return some(d.fields[0]) if d.var == 1 else none()
@M('opt res', 'is_some is_ok')
def _(I_, st, a, d, c, site, e): return B(good(d))
@M('opt res', 'is_none is_err')
def _(I_, st, a, d, c, site, e): return B(not good(d))
@M('opt res', 'is_some_and is_ok_and')
def _(I_, st, a, d, c, site, e): return cv(I_, st, a[1], [d.fields[0]], site) if good(d) else FALSE
@M('opt', 'is_none_or')
def _(I_, st, a, d, c, site, e): return cv(I_, st, a[1], [d.fields[0]], site) if good(d) else TRUE
@M('opt', 'cloned copied')
def _(I_, st, a, d, c, site, e):
    if not good(d): return d
    x = d.fields[0]
    return some(I_.read(st, x) if isinstance(x, (Ref, VIte)) and not isinstance(I_.deref(st, x), T) else I_.deref(st, x))
@M('opt res', 'as_ref as_mut as_deref as_deref_mut')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    if not isinstance(p, Ref): p = Ref(st.new(d))
    if d.path == OPTION and d.var == 0: return d
    return d.with_(0, p.ext(('f', 0, d.var)))
@M('opt', 'filter')
def _(I_, st, a, d, c, site, e):
    if not good(d): return d
    g = sc(I_, st, cv(I_, st, a[1], [Ref(st.new(d.fields[0]))], site))
    return vite(g, d, none())
@M('opt', 'zip')
def _(I_, st, a, d, c, site, e):
    y = I_.deref(st, a[1])
    if not good(d): return d
    if isinstance(y, VIte): return I_.branch(st, y.c, lambda s: call(I_, s, c, [d, y.a], site, e), lambda s: call(I_, s, c, [d, y.b], site, e))
    return some(Tup((d.fields[0], y.fields[0]))) if isinstance(y, Adt) and good(y) else y
@M('opt', 'take')
def _(I_, st, a, d, c, site, e):
    I_.write(st, I_.place_of(st, a[0]), none()); return d
@M('opt', 'replace insert')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    I_.write(st, p, some(a[1]))
    return d if c['name'] == 'replace' else p.ext(('f', 0, 1))
@M('opt', 'get_or_insert_with get_or_insert')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    if not good(d): I_.write(st, p, some(cv(I_, st, a[1], [], site) if 'with' in c['name'] else a[1]))
    return p.ext(('f', 0, 1))
@M('opt res', 'flatten')
def _(I_, st, a, d, c, site, e): return d.fields[0] if good(d) else d
@M('res', 'transpose')
def _(I_, st, a, d, c, site, e): return NotImplemented
@M('opt', 'iter iter_mut into_iter')
def _(I_, st, a, d, c, site, e): return opt_stream(d, I_.place_of(st, a[0]) if 'into' not in c['name'] and isinstance(I_.place_of(st, a[0]), Ref) else None)
@M('opt', 'inspect')
def _(I_, st, a, d, c, site, e): return d

# ------------------------------------------------------------------ iterators
def need(I_, st, s, what):
    "a filtered iterator, indexed by the position among the selected items"
    if not s.guarded: return s
    if not s.ordered: return I_.unk('%s over an unordered iterator' % what)
    r = fixed(I_, st, s)
    if r is None or r[0] is None: return I_.unk('%s over a filtered iterator' % what)
    n, q, g, v = r
    if g.sort == 'u': return Unk(why(g))
    if g is TRUE: return Stream(n, lambda s2, k: (TRUE, vsubst(v, {q: k})))
    return Stream(sum_(n, q, ite(g, I(1), I(0))), lambda s2, k: (TRUE, vsubst(v, {q: nth(n, q, g, k)})))
@M('stream', 'map')
def _(I_, st, a, s, c, site, e):
    f = a[1]
    if not isinstance(f, (Ref, FnV)): f = Ref(st.new(f))
    def pull(s2, k):
        g, x = s.pull(s2, k)
        if s2.dead: return FALSE, BOT
        if g is TRUE: return TRUE, I_.call_value(s2, f, [x], site)
        if g is FALSE: return FALSE, BOT
        return g, I_.branch(s2, g, lambda s3: I_.call_value(s3, f, [x], site), lambda s3: BOT)
    r = Stream(s.n, pull, s.ordered, s.guarded, s.pos)
    r.clone_env = True
    return r
@M('stream', 'inspect')
def _(I_, st, a, s, c, site, e):
    f = Ref(st.new(a[1]))
    def pull(s2, k):
        g, x = s.pull(s2, k)
        if s2.dead or g is FALSE: return FALSE, BOT
        cx = Ref(s2.new(x))
        I_.branch(s2, g, lambda s3: I_.call_value(s3, f, [cx], site), lambda s3: UNIT)
        return g, x
    return Stream(s.n, pull, s.ordered, s.guarded, s.pos, s.incr)
@M('stream', 'filter')
def _(I_, st, a, s, c, site, e):
    f = Ref(st.new(a[1]))
    def pull(s2, k):
        g, x = s.pull(s2, k)
        if s2.dead or g is FALSE: return FALSE, BOT
        cx = Ref(s2.new(x))
        p = sc(I_, s2, I_.branch(s2, g, lambda s3: I_.call_value(s3, f, [cx], site), lambda s3: FALSE)) if g is not TRUE else sc(I_, s2, I_.call_value(s2, f, [cx], site))
        return and_(g, p), x
    return Stream(s.n, pull, s.ordered, True, s.pos, s.incr)
@M('stream', 'filter_map')
def _(I_, st, a, s, c, site, e):
    f = Ref(st.new(a[1]))
    def pull(s2, k):
        g, x = s.pull(s2, k)
        if s2.dead or g is FALSE: return FALSE, BOT
        r = I_.branch(s2, g, lambda s3: I_.call_value(s3, f, [x], site), lambda s3: none())
        p = I_.is_variant(r, 1)
        return and_(g, p), I_.proj(s2, I_.restrict(r, 1, True), ('f', 0, 1))
    return Stream(s.n, pull, s.ordered, True, s.pos)
@M('stream', 'flat_map flatten')
def _(I_, st, a, s, c, site, e): return I_.unk('flattened iterator')
@M('stream', 'enumerate')
def _(I_, st, a, s, c, site, e):
    s = need(I_, st, s, 'enumerate')
    if not isinstance(s, Stream): return s
    s = shift(s)
    return Stream(s.n, lambda s2, k: (TRUE, Tup((k, s.pull(s2, k)[1]))), s.ordered)
@M('stream', 'zip')
def _(I_, st, a, s, c, site, e):
    t = stream(I_, st, a[1])
    if not isinstance(t, Stream): return t
    s, t = need(I_, st, s, 'zip'), need(I_, st, t, 'zip')
    u = s if not isinstance(s, Stream) else t if not isinstance(t, Stream) else None
    if u: return u
    s, t = shift(s), shift(t)
    n = t.n if s.n is None else s.n if t.n is None else min2(s.n, t.n)
    return Stream(n, lambda s2, k: (TRUE, Tup((s.pull(s2, k)[1], t.pull(s2, k)[1]))), s.ordered and t.ordered)
@M('stream', 'zip_eq')
def _(I_, st, a, s, c, site, e):
    t = stream(I_, st, a[1])
    if isinstance(t, Stream) and s.n is not None and t.n is not None:
        I_.panics.append((and_(conj(st.pc), not_(eq(s.length(), t.length()))), site, 'zip_eq length mismatch'))
    return METHODS[('stream', 'zip')](I_, st, [s, t], s, c, site, e)
@M('stream', 'chain')
def _(I_, st, a, s, c, site, e):
    t = stream(I_, st, a[1])
    if not isinstance(t, Stream) or s.n is None: return I_.unk('chain')
    s, t = shift(s), shift(t)
    def pull(s2, k):
        res = []
        def left(s3):
            r = s.pull(s3, k); res.append(r[0]); return r[1]
        def right(s3):
            r = t.pull(s3, sub(k, s.n)); res.append(r[0]); return r[1]
        cnd = lt(k, s.n)
        v = I_.branch(s2, cnd, left, right)
        g = ite(cnd, res[0], res[1]) if len(res) == 2 else res[0]
        return g, v
    return Stream(None if t.n is None else add(s.n, t.n), pull, s.ordered and t.ordered, s.guarded or t.guarded)
@M('stream', 'rev')
def _(I_, st, a, s, c, site, e):
    s = shift(s)
    if s.n is None: return I_.unk('rev of an unbounded iterator')
    return Stream(s.n, lambda s2, k: s.pull(s2, sub(sub(s.n, I(1)), k)), s.ordered, s.guarded)
@M('stream', 'skip')
def _(I_, st, a, s, c, site, e):
    s = need(I_, st, s, 'skip')
    if not isinstance(s, Stream): return s
    return Stream(s.n, s.pull, s.ordered, s.guarded, add(s.pos, sc(I_, st, a[1])), s.incr)
@M('stream', 'take')
def _(I_, st, a, s, c, site, e):
    s = need(I_, st, s, 'take')
    if not isinstance(s, Stream): return s
    s = shift(s); m = sc(I_, st, a[1])
    return Stream(m if s.n is None else min2(s.n, m), s.pull, s.ordered, False, None, s.incr)
@M('stream', 'step_by')
def _(I_, st, a, s, c, site, e):
    s = need(I_, st, s, 'step_by')
    if not isinstance(s, Stream): return s
    s = shift(s); m = sc(I_, st, a[1])
    return Stream(None if s.n is None else idiv('tdiv', add(s.n, sub(m, I(1))), m), lambda s2, k: s.pull(s2, mul(k, m)), s.ordered)
@M('stream', 'cycle')
def _(I_, st, a, s, c, site, e):
    s = need(I_, st, s, 'cycle')
    if not isinstance(s, Stream): return s
    s = shift(s)
    if s.n is None: return s
    return Stream(None, lambda s2, k: s.pull(s2, idiv('trem', k, s.n)), s.ordered)
@M('stream', 'cloned copied')
def _(I_, st, a, s, c, site, e):
    def pull(s2, k):
        g, x = s.pull(s2, k)
        if isinstance(x, (Ref, VIte)):
            d = I_.deref(s2, x)
            x = d if isinstance(d, T) else I_.read(s2, x)
        return g, x
    return Stream(s.n, pull, s.ordered, s.guarded, s.pos, s.incr)
@M('stream', 'by_ref into_iter iter peekable fuse clone tuple_windows as_slice')
def _(I_, st, a, s, c, site, e):
    return s if c['name'] not in ('tuple_windows',) else NotImplemented
@M('stream', 'take_while skip_while map_while')
def _(I_, st, a, s, c, site, e):
    if not s.ordered: return I_.unk('%s over an unordered iterator' % c['name'])
    nm = c['name']; s = shift(s)
    f = Ref(st.new(a[1]))
    def probe(s2, k):
        g, x = s.pull(s2, k)
        if s2.dead or g is FALSE: return FALSE, FALSE
        y = x if nm == 'map_while' else Ref(s2.new(x))
        r = I_.branch(s2, g, lambda s3: I_.call_value(s3, f, [y], site), lambda s3: BOT) if g is not TRUE else I_.call_value(s2, f, [y], site)
        return g, (I_.is_variant(r, 1) if nm == 'map_while' else sc(I_, s2, r))
    np = len(I_.panics)
    t = fixed(I_, st, Stream(s.n, probe, True, True))
    if len(I_.panics) > np:
        del I_.panics[np:]; return I_.unk('%s with a condition that may abort' % nm)
    if t is None or s.n is None and nm == 'skip_while': return I_.unk('%s with a state-changing iterator' % nm)
    n, q, g, p = t
    if not isinstance(p, T): return I_.unk(nm)
    if s.n is None: return I_.unk('%s of an unbounded iterator' % nm)
    stop = first(n, q, and_(g, not_(p)))
    if nm == 'skip_while': return Stream(s.n, s.pull, True, s.guarded, stop, s.incr)
    if nm == 'take_while': return Stream(stop, s.pull, True, s.guarded, None, s.incr)
    def pull(s2, k):
        g, x = s.pull(s2, k)
        if s2.dead or g is FALSE: return FALSE, BOT
        r = I_.branch(s2, g, lambda s3: I_.call_value(s3, f, [x], site), lambda s3: none())
        return g, I_.proj(s2, I_.restrict(r, 1, True), ('f', 0, 1))
    return Stream(stop, pull, True, s.guarded)
@M('stream', 'scan')
def _(I_, st, a, s, c, site, e):
    s = need(I_, st, s, 'scan')
    if not isinstance(s, Stream): return s
    s = shift(s); f = Ref(st.new(a[2])); acc = Ref(st.new(a[1]))
    def pull(s2, k):
        g, x = s.pull(s2, k)
        r = I_.call_value(s2, f, [acc, x], site)
        if I_.is_variant(r, 1) is not TRUE: return TRUE, I_.unk('scan that ends early')
        return g, I_.proj(s2, r, ('f', 0, 1))
    return Stream(s.n, pull, s.ordered)
@M('stream', 'collect collect_vec into_iter_sorted')
def _(I_, st, a, s, c, site, e):
    if c['name'] == 'collect_vec': return to_seq(I_, st, s)
    return collect_into(I_, st, s, tyinfo(I_, c, 1), site)
def collect_into(I_, st, s, t, site):
    if not isinstance(s, Stream): return s if isinstance(s, Unk) else I_.unk('collect')
    p = t.get('path', '')
    if p.endswith('::HashMap') or p.endswith('BTreeMap'): return to_map(I_, st, s, 'map')
    if p.endswith('::HashSet') or p.endswith('BTreeSet'): return to_map(I_, st, s, 'set')
    if p.endswith('::Vec') or p.endswith('ArrayBase') or p.endswith('::Box'): return to_seq(I_, st, s)
    if p == 'spaces::product::ProductSpace': return Adt(p, 0, 'ProductSpace', [to_seq(I_, st, s)], ['0'])
    if p.startswith('crate::'):
        c = [f for f in I_.D['fns'] if f.get('name') == 'from_iter' and I_.T[f['implself']]['s'] == t['s']]
        if len(c) == 1: return I_.call_fn(st, c[0]['key'], [s], site)
    if p == RESULT or p == OPTION:
        r = pure(I_, st, s)
        if r is None or r[2] is not TRUE: return I_.unk('fallible collect')
        n, q, g, v, o = r
        good_ = 0 if p == RESULT else 1
        v = I_.deref(st, v)
        okc = I_.is_variant(v, good_)
        pay = I_.proj(st, I_.restrict(v, good_, True), ('f', 0, good_))
        inner = I_.T[t['args'][0]] if t.get('args') else {}
        succ = collect_into(I_, st, Stream(n, lambda s2, k: (TRUE, vsubst(pay, {q: k})), o), inner, site) if inner.get('s') != '()' else UNIT
        if okc is TRUE: return Adt(p, good_, 'Ok' if p == RESULT else 'Some', (succ,))
        fi = first(n, q, not_(okc))
        if p == OPTION: return vite(eq(fi, n), some(succ), none())
        bad = vsubst(I_.proj(st, I_.restrict(v, 1, True), ('f', 0, 1)), {q: fi})
        return vite(not_(any_(n, q, not_(okc))), ok(succ), err(bad))
    if t.get('s') == '()': 
        I_.consume(st, s, lambda *x: None)
        return UNIT
    return I_.unk('collect into %s' % t.get('s'), site)
@M('stream', 'for_each')
def _(I_, st, a, s, c, site, e):
    f = a[1] if isinstance(a[1], (Ref, FnV)) else Ref(st.new(a[1]))
    I_.consume(st, s, lambda s2, k, item, o: I_.call_value(s2, f, [item], site))
    return UNIT
@M('stream', 'fold')
def _(I_, st, a, s, c, site, e):
    acc = st.new(a[1])
    f = a[2] if isinstance(a[2], (Ref, FnV)) else Ref(st.new(a[2]))
    def step(s2, k, item, o):
        v = s2.cells[acc]
        r = I_.call_value(s2, f, [v, item], site)
        if not s2.dead: s2.cells[acc] = r
    I_.consume(st, s, step)
    return st.cells.get(acc, BOT)
@M('stream', 'try_fold try_for_each')
def _(I_, st, a, s, c, site, e):
    tf = c['name'] == 'try_fold'
    acc = st.new(a[1] if tf else UNIT); out = st.new(BOT)
    f = a[2 if tf else 1]; f = f if isinstance(f, (Ref, FnV)) else Ref(st.new(f))
    if s.n is None: return I_.unk('try_fold over unbounded iterator')
    fr = I_.frames[-1]
    def step(s2, k, item, o):
        r = I_.call_value(s2, f, ([s2.cells[acc]] if tf else []) + [item], site)
        if s2.dead: return
        r = I_.deref(s2, r)
        g = r.path if isinstance(r, Adt) else RESULT
        good_ = 0
        if isinstance(r, Adt) and r.path == OPTION or isinstance(r, VIte) and isinstance(r.a, Adt) and r.a.path == OPTION: good_ = 1
        def t(s3):
            s3.cells[acc] = I_.proj(s3, I_.restrict(r, good_, True), ('f', 0, good_)); return UNIT
        def n(s3):
            ctx = fr.loops[-1]
            ctx.breaks.append((conj(s3.pc[len(ctx.entry):]), I_.restrict(r, good_, False), s3.copy()))
            s3.dead = True
            return BOT
        I_.branch(s2, I_.is_variant(r, good_), t, n)
    # run as a loop with early exit; a normal completion yields Ok(acc)
    st0 = st
    n = s.length()
    def body(s2, k):
        g, item = s.pull(s2, add(k, s.pos) if s.pos is not I(0) else k)
        if g is TRUE: step(s2, k, item, s.ordered)
        else: I_.branch(s2, g, lambda s3: (step(s3, k, item, s.ordered), UNIT)[1], lambda s3: UNIT)
    v = I_.loop(st, n, body, fr, None, s.ordered)
    fin = ok(st.cells.get(acc, BOT))
    if v is UNIT: return fin
    return replace_unit(v, fin)
def replace_unit(v, fin):
    if isinstance(v, VIte): return vite(v.c, replace_unit(v.a, fin), replace_unit(v.b, fin))
    if isinstance(v, Tup) and not v.items: return fin
    return v
def reduce_(I_, st, s, what, f):
    r = pure(I_, st, s)
    if r is None: return I_.unk('%s of a state-changing iterator' % what)
    n, q, g, v, o = r
    if n is None: return I_.unk('%s of an unbounded iterator' % what)
    x = I_.scalar(st, v) if v is not BOT else R(0)
    return f(n, q, g, x)
@M('stream', 'sum')
def _(I_, st, a, s, c, site, e): return reduce_(I_, st, s, 'sum', lambda n, q, g, x: x if x.sort == 'u' else sum_(n, q, ite(g, x, const(0, x.sort))))
@M('stream', 'product')
def _(I_, st, a, s, c, site, e): return reduce_(I_, st, s, 'product', lambda n, q, g, x: x if x.sort == 'u' else prod_(n, q, ite(g, x, const(1, x.sort))))
@M('stream', 'count')
def _(I_, st, a, s, c, site, e):
    if not s.guarded and s.n is not None: return s.length()
    return reduce_(I_, st, Stream(s.n, lambda s2, k: (s.pull(s2, k)[0], I(1)), s.ordered, s.guarded, s.pos), 'count', lambda n, q, g, x: sum_(n, q, ite(g, I(1), I(0))))
@M('stream', 'len')
def _(I_, st, a, s, c, site, e): return METHODS[('stream', 'count')](I_, st, a, s, c, site, e)
@M('stream', 'any all')
def _(I_, st, a, s, c, site, e):
    f = Ref(st.new(a[1])) if not isinstance(a[1], (Ref, FnV)) else a[1]
    neg_ = c['name'] == 'all'
    m = Stream(s.n, lambda s2, k: app_f(I_, s2, s, k, f, site), s.ordered, s.guarded, s.pos)
    def fin(n, q, g, x):
        if x.sort == 'u': return x
        return not_(any_(n, q, and_(g, not_(x)))) if neg_ else any_(n, q, and_(g, x))
    r = reduce_(I_, st, m, c['name'], fin)
    p = I_.place_of(st, a[0])
    return r
def app_f(I_, s2, s, k, f, site):
    g, x = s.pull(s2, k)
    if g is FALSE or s2.dead: return FALSE, BOT
    if g is TRUE: return TRUE, I_.call_value(s2, f, [x], site)
    return g, I_.branch(s2, g, lambda s3: I_.call_value(s3, f, [x], site), lambda s3: BOT)
@M('stream', 'position find find_map')
def _(I_, st, a, s, c, site, e):
    f = Ref(st.new(a[1]))
    nm = c['name']
    s = shift(s)
    if s.n is None or (s.guarded and nm == 'position') or not s.ordered: return I_.unk(nm)
    def pull(s2, k):
        g, x = s.pull(s2, k)
        if g is FALSE: return FALSE, BOT
        y = I_.call_value(s2, f, [Ref(s2.new(x)) if nm == 'find' else x], site)
        return g, Tup((x, y))
    r = fixed(I_, st, Stream(s.n, pull, s.ordered, s.guarded))
    if r is None: return I_.unk(nm + ' with effects')
    n, q, g, v = r
    x, y = v.items if isinstance(v, Tup) else (BOT, FALSE)
    cnd = and_(g, sc(I_, st, y)) if nm != 'find_map' else and_(g, I_.is_variant(I_.deref(st, y), 1))
    if cnd.sort == 'u': return Unk(why(cnd))
    i = first(n, q, cnd)
    found = lt(i, n)
    if nm == 'position': return opt(found, i)
    if nm == 'find': return opt(found, vsubst(x, {q: i}))
    return vite(found, vsubst(I_.restrict(I_.deref(st, y), 1, True), {q: i}), none())
@M('stream', 'next')
def _(I_, st, a, s, c, site, e):
    p = I_.place_of(st, a[0])
    s = need(I_, st, s, 'next')
    if not isinstance(s, Stream):
        I_.write(st, p, I_.unk('next of a filtered iterator')); return Unk('next of a filtered iterator')
    cnd = TRUE if s.n is None else lt(s.pos, s.n)
    def t(s2):
        g, x = s.pull(s2, s.pos)
        I_.write(s2, p, Stream(s.n, s.pull, s.ordered, s.guarded, add(s.pos, I(1)), s.incr))
        return some(x)
    return I_.branch(st, cnd, t, lambda s2: none())
@M('stream', 'nth')
def _(I_, st, a, s, c, site, e):
    p = I_.place_of(st, a[0]); i = sc(I_, st, a[1])
    s = need(I_, st, s, 'nth')
    if not isinstance(s, Stream): return s
    j = add(s.pos, i)
    def t(s2):
        g, x = s.pull(s2, j)
        return some(x)
    if isinstance(p, Ref): I_.write(st, p, Stream(s.n, s.pull, s.ordered, s.guarded, add(j, I(1)), s.incr))
    return I_.branch(st, TRUE if s.n is None else lt(j, s.n), t, lambda s2: none())
@M('stream', 'last')
def _(I_, st, a, s, c, site, e):
    s = need(I_, st, s, 'last')
    if not isinstance(s, Stream) or s.n is None: return I_.unk('last')
    return I_.branch(st, lt(s.pos, s.n), lambda s2: some(s.pull(s2, sub(s.n, I(1)))[1]), lambda s2: none())
@M('stream', 'max min')
def _(I_, st, a, s, c, site, e):
    big = c['name'] == 'max'
    def fin(n, q, g, x):
        if x.sort == 'u': return Unk(why(x))
        lo = I(-(1 << 62)) if x.sort == 'i' else NEGINF
        hi = I(1 << 62) if x.sort == 'i' else POSINF
        m = maxr(n, q, g, x, I(0) if x.sort == 'i' and nonneg(x) else lo) if big else minr(n, q, g, x, hi)
        ne = any_(n, q, g) if g is not TRUE else lt(I(0), n)
        return opt(ne, m)
    return reduce_(I_, st, s, c['name'], fin)
@M('stream', 'max_by min_by max_by_key min_by_key reduce is_sorted partition unzip sorted_unstable group_by fold_while tuple_combinations cartesian_product rposition')
def _(I_, st, a, s, c, site, e): return I_.unk('iterator method %s' % c['name'], site)
@M('stream', 'size_hint')
def _(I_, st, a, s, c, site, e):
    if s.guarded or s.n is None: return I_.unk('size_hint')
    return Tup((s.length(), some(s.length())))
@M('stream', 'sorted sorted_by sorted_by_key sorted_unstable_by')
def _(I_, st, a, s, c, site, e):
    if s.incr is not True: return I_.unk('sorting')
    if c['name'] == 'sorted': return s
    if c['name'] in ('sorted_by', 'sorted_unstable_by'):
        x, y = Opq(sym('cmp_a', 'o'), 'item'), Opq(sym('cmp_b', 'o'), 'item')
        s2 = st.copy()
        r = I_.deref(s2, I_.call_value(s2, a[1], [Ref(s2.new(x)), Ref(s2.new(y))], site))
        if isinstance(r, Opq) and r.t is app('lexcmp', [x.t, y.t], 'o'): return s
        if isinstance(r, Opq) and r.t is app('lexcmp', [y.t, x.t], 'o') and s.n is not None and not s.guarded:
            s = shift(s)
            return Stream(s.n, lambda s2, k: s.pull(s2, sub(sub(s.n, I(1)), k)), True, incr='dec')
    return I_.unk('sorting by an unrecognised order')
@M('stream', 'dedup_by dedup_by_key')
def _(I_, st, a, s, c, site, e):
    "an element goes if it is taken for equal to the one before it"
    if s.n is None or s.guarded: return I_.unk(c['name'])
    s, f = shift(s), callable_(st, a[1])
    def pull(s2, k):
        x = s.pull(s2, k)[1]
        def differs(s3):
            y = s.pull(s3, sub(k, I(1)))[1]; z = s.pull(s3, k)[1]
            p, q = Ref(s3.new(z)), Ref(s3.new(y))
            if c['name'] == 'dedup_by': return not_(sc(I_, s3, I_.call_value(s3, f, [p, q], site)))
            return not_(dkey_eq(I_, s3, I_.call_value(s3, f, [p], site), I_.call_value(s3, f, [q], site)))
        g = I_.branch(s2, lt(I(0), k), differs, lambda s3: TRUE)
        return sc(I_, s2, g), x
    return Stream(s.n, pull, s.ordered, True)
def dkey_eq(I_, st, x, y):
    x, y = I_.deref(st, x), I_.deref(st, y)
    if isinstance(x, T) and isinstance(y, T): return eq(x, y)
    return TM.unk('dedup by a key')
@M('stream', 'dedup unique')
def _(I_, st, a, s, c, site, e):
    if s.incr: return s
    return I_.unk('dedup')
@M('stream', 'multi_cartesian_product')
def _(I_, st, a, s, c, site, e):
    s = need(I_, st, s, 'multi_cartesian_product')
    if not isinstance(s, Stream): return s
    r = fixed(I_, st, s)
    if r is None or r[0] is None: return I_.unk('multi_cartesian_product')
    D, q, g, v = r
    inner = stream(I_, st, v)
    if not isinstance(inner, Stream): return inner
    inner = shift(inner)
    if inner.guarded or inner.n is None: return I_.unk('multi_cartesian_product of filtered iterators')
    q2 = bv('i', 'k')
    g2, item = inner.pull(st, q2)
    item = derefv(I_, st, item)
    size = inner.n      # in q
    if q not in size.fv:
        total = ipow(size, D)
        stride = lambda d: ipow(size, sub(sub(D, I(1)), d))
    else:
        z = bv('i', 'k')
        total = prod_(D, z, subst(size, {q: z}))
        def stride(d):
            z = bv('i', 'k')
            return prod_(sub(sub(D, I(1)), d), z, subst(size, {q: add(add(d, I(1)), z)}))
    def pull(s2, k):
        def at(d):
            sz = subst(size, {q: d})
            dg = idiv('trem', idiv('tdiv', k, stride(d)), sz)
            return vsubst(item, {q: d, q2: dg})
        return TRUE, Seq(D, at)
    return Stream(total, pull, True, False, None, inner.incr)

# ------------------------------------------------------------------ sequences (Vec, slice, Array1)
@M('seq', 'len size dim_len')
def _(I_, st, a, d, c, site, e):
    if d.guard is not None:
        q = bv('i', 'k')
        return sum_(d.n, q, ite(d.guard(q), I(1), I(0)))
    if d.pushes or isinstance(d.tag, absint.Slot) and d.tag.__dict__.get('pushed'): return I_.unk('length while pushing')
    if isinstance(d.tag, absint.Slot) and d.n is d.tag.init.n: return d.n
    return d.n
@M('seq', 'capacity')
def _(I_, st, a, d, c, site, e):
    n = METHODS[('seq', 'len')](I_, st, a, d, c, site, e)
    return n if not isinstance(n, T) or n.sort == 'u' else add(n, sym('spare capacity at %s' % site, 'i', 'small'))     # anything from the length up
@M('seq', 'is_empty')
def _(I_, st, a, d, c, site, e): return eq(d.n, I(0))
@M('seq', 'shape')
def _(I_, st, a, d, c, site, e): return array([d.n])
@M('seq', 'dim raw_dim')
def _(I_, st, a, d, c, site, e): return d.n
@M('seq', 'iter iter_mut')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    if not isinstance(p, Ref): p = Ref(st.new(d))
    return stream_ref(I_, st, p, d)
@M('seq', 'drain')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    r = I_.deref(st, a[1])
    if isinstance(r, Adt) and r.path.endswith('RangeFull'):
        I_.write(st, p, Seq(I(0), lambda j: BOT))
        return stream(I_, st, d)
    return NotImplemented
@M('seq', 'indexed_iter indexed_iter_mut')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    if d.guard is not None: return I_.unk('indexed_iter')
    return Stream(d.n, lambda s, k: (TRUE, Tup((k, p.ext(('i', k)) if isinstance(p, Ref) else d.at(k)))))
@M('seq mat', 'view view_mut reborrow slice_all as_slice_ref broadcast_view')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    return View(p if isinstance(p, (Ref, VIte)) else Ref(st.new(d)))
def uninit_at(t):
    "condition under which a term is read from memory never written"
    if not isinstance(t, T): return FALSE
    if t.op == 'app': return TRUE if t.args[0] == 'uninit' else or_(*[uninit_at(x) for x in t.args[1:]]) if occurs(t, lambda q: q.op == 'app' and q.args[0] == 'uninit') else FALSE
    if t.op == 'ite': return or_(uninit_at(t.args[0]), ite(t.args[0], uninit_at(t.args[1]), uninit_at(t.args[2])))
    if not occurs(t, lambda q: q.op == 'app' and q.args[0] == 'uninit'): return FALSE
    return TRUE
@M('seq', 'as_slice as_slice_mut as_slice_memory_order as_slice_memory_order_mut as_mut_slice as_ref as_mut borrow as_ptr as_mut_ptr to_slice into_slice')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    p = p if isinstance(p, Ref) else Ref(st.new(d))
    arr = 'ndarray' in c['path']
    if c['name'] in ('as_ptr', 'as_mut_ptr'): return RawPtr(p, I(0))
    if not arr: return p
    if d.lay is None: return some(p)
    if 'memory_order' in c['name']:
        return opt(I_.known(st, d.lay.contig), vite(d.lay.std, p, p.ext(('rev',))) if isinstance(p, Ref) else Unk('memory order'))
    return opt(I_.known(st, or_(d.lay.std, le(d.n, I(1)))), p)
@M('ptr', 'add sub offset wrapping_add wrapping_sub wrapping_offset cast cast_mut cast_const')
def _(I_, st, a, d, c, site, e):
    if c['name'].startswith('cast'): return d
    k = sc(I_, st, a[1])
    return RawPtr(d.ref, sub(d.off, k) if c['name'].endswith('sub') else add(d.off, k))
@M('ptr', 'read read_unaligned read_volatile')
def _(I_, st, a, d, c, site, e): return I_.read(st, I_.raw_elem(st, d, site))
@M('ptr', 'write write_unaligned write_volatile')
def _(I_, st, a, d, c, site, e):
    I_.write(st, I_.raw_elem(st, d, site), a[1]); return UNIT
@F('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut')
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[0])
    if not isinstance(d, RawPtr): return I_.unk('slice from a raw pointer')
    n = sc(I_, st, a[1]); I_.raw_elem(st, d, site, n)
    return I_.ext(d.ref, ('slice', d.off, add(d.off, n)))
@M('seq mat', 'ndim')
def _(I_, st, a, d, c, site, e): return I(2 if isinstance(d, Mat) else 1)
@M('seq', 'strides')
def _(I_, st, a, d, c, site, e):
    if 'ndarray' not in c['path']: return NotImplemented
    if d.lay is None: return array([I(1)])
    return array([ite(d.lay.std, I(1), ite(d.lay.contig, I(-1), app('stride', [d.lay.name], 'i')))])
@M('seq mat', 'is_standard_layout')
def _(I_, st, a, d, c, site, e):
    if isinstance(d, Mat): return TRUE if d.lay is None else or_(d.lay.std, le(mul(d.nr, d.nc), I(1)))
    return TRUE if d.lay is None else or_(d.lay.std, le(d.n, I(1)))
@M('seq', 'as_standard_layout')
def _(I_, st, a, d, c, site, e): return Seq(d.n, d.at, ordered=d.ordered) if d.guard is None else NotImplemented
@M('seq', 'to_vec to_owned into_raw_vec into_vec clone into_boxed_slice into_owned insert_axis into_shape')
def _(I_, st, a, d, c, site, e):
    if c['name'] in ('insert_axis', 'into_shape'): return NotImplemented
    if c['name'] == 'into_raw_vec' and d.lay is not None:
        l = d.lay
        return Seq(ite(l.std, d.n, app('rawlen', [l.name, d.n], 'i')), lambda j: vite(l.std, d.at(j), app('raw', [l.name, j], 'r')))
    if c['name'] in ('to_vec', 'into_vec') and d.lay is not None and d.guard is None: return Seq(d.n, d.at, ordered=d.ordered)
    return d
@M('seq', 'assume_init')
def _(I_, st, a, d, c, site, e):
    if d.guard is None:
        j = sym('elt#%d' % next(absint_cells), 'i', 'any', d.n)
        x = d.at(j)
        if isinstance(x, T):
            cc = I_.known(st, and_(le(I(0), j), lt(j, d.n), uninit_at(x)))
            if cc is not FALSE: I_.panics.append((and_(conj(st.pc), cc), site, 'uninitialised element read'))
        elif is_unk(x): I_.ubnote = getattr(I_, 'ubnote', []) + [(site, why(x))]
    return d
@M('seq', 'get get_mut get_unchecked get_unchecked_mut uget uget_mut')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    if d.guard is not None and d.ordered:
        d = absint.flat(d)
        if isinstance(p, Ref): I_.write(st, p, d)
    if not isinstance(p, Ref): p = Ref(st.new(d))
    i = I_.deref(st, a[1])
    if not isinstance(i, T) or d.guard is not None: return I_.unk('get with a range')
    if i.sort == 'u': return Unk(why(i))
    r = p.ext(('i', i))
    if c['name'] in ('get', 'get_mut'): return opt(I_.known(st, and_(lt(i, d.n), le(I(0), i))), r)
    cc = I_.known(st, lt(i, d.n))
    if cc is not TRUE: I_.panics.append((and_(conj(st.pc), not_(cc)), site, 'unchecked access out of bounds'))
    return r
@M('seq', 'first last first_mut last_mut')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    if not isinstance(p, Ref): p = Ref(st.new(d))
    if d.guard is not None:
        if not d.ordered: return I_.unk('first of filtered')
        d = absint.flat(d); p = Ref(st.new(d))
    return opt(lt(I(0), d.n), p.ext(('i', I(0) if 'first' in c['name'] else sub(d.n, I(1)))))
@M('seq', 'push')
def _(I_, st, a, d, c, site, e):
    push(I_, st, I_.place_of(st, a[0]), a[1]); return UNIT
@M('seq', 'extend_from_slice append')
def _(I_, st, a, d, c, site, e):
    return TRAITS[('Extend', 'extend')](I_, st, a, c, site, e)
@M('seq', 'pop')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    if d.guard is not None or isinstance(d.tag, absint.Slot): return I_.unk('pop')
    I_.write(st, p, Seq(max2(sub(d.n, I(1)), I(0)), d.at))
    return opt(lt(I(0), d.n), d.at(sub(d.n, I(1))))
@M('seq', 'insert')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); i = sc(I_, st, a[1]); x = a[2]
    d = absint.flat(d)
    if d.guard is not None or isinstance(d.tag, absint.Slot) or d.pushes: return I_.unk('insert')
    if lt(d.n, i) is not FALSE: I_.panics.append((and_(conj(st.pc), lt(d.n, i)), site, "insertion beyond the end"))
    at = d.at
    I_.write(st, p, Seq(add(d.n, I(1)), lambda j: vite(lt(j, i), at(j), vite(eq(j, i), x, at(sub(j, I(1))))), ordered=d.ordered)); return UNIT
@M('seq', 'remove swap_remove')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); i = sc(I_, st, a[1])
    d = absint.flat(d)
    if d.guard is not None or isinstance(d.tag, absint.Slot) or d.pushes: return I_.unk('remove')
    at, n = d.at, d.n
    if not_(lt(i, n)) is not FALSE: I_.panics.append((and_(conj(st.pc), not_(lt(i, n))), site, 'removal beyond the end'))
    if c['name'] == 'remove': I_.write(st, p, Seq(max2(sub(n, I(1)), I(0)), lambda j: vite(lt(j, i), at(j), at(add(j, I(1)))), ordered=d.ordered))
    else: I_.write(st, p, Seq(max2(sub(n, I(1)), I(0)), lambda j: vite(eq(j, i), at(sub(n, I(1))), at(j)), ordered=d.ordered))
    return at(i)
@M('seq', 'sort sort_unstable sort_by_key sort_unstable_by_key sort_by sort_unstable_by sort_by_cached_key')
def _(I_, st, a, d, c, site, e):
    "only recognised where the elements already come in increasing index order"
    p = I_.place_of(st, a[0]); ok_ = False
    q = bv('i', 'k')
    if not isinstance(d.tag, absint.Slot) and not d.pushes:
        x = I_.deref(st, d.at(q))
        if 'key' in c['name']: ok_ = I_.deref(st, I_.call_value(st, a[1], [Ref(st.new(x))], site)) is q
        elif c['name'] in ('sort', 'sort_unstable'): ok_ = x is q or isinstance(x, Tup) and I_.deref(st, x.items[0]) is q
        elif isinstance(x, (T, Tup)):
            q2 = bv('i', 'k')
            r = I_.deref(st, I_.call_value(st, a[1], [Ref(st.new(x)), Ref(st.new(d.at(q2)))], site))
            ok_ = isinstance(r, VIte) and r.c is lt(q, q2) and getattr(r.a, 'vname', '') == 'Less'
    I_.write(st, p, Seq(d.n, d.base, d.writes, d.guard, True, lay=d.lay) if ok_ else I_.unk('sorting')); return UNIT
@M('seq', 'clear')
def _(I_, st, a, d, c, site, e):
    I_.write(st, I_.place_of(st, a[0]), Seq(I(0), lambda j: BOT)); return UNIT
@M('seq', 'truncate')
def _(I_, st, a, d, c, site, e):
    I_.write(st, I_.place_of(st, a[0]), Seq(min2(d.n, sc(I_, st, a[1])), d.at)); return UNIT
@M('seq', 'resize')
def _(I_, st, a, d, c, site, e):
    n, x = sc(I_, st, a[1]), a[2]
    I_.write(st, I_.place_of(st, a[0]), Seq(n, lambda j: vite(lt(j, d.n), d.at(j), x))); return UNIT
@M('seq map', 'reserve shrink_to_fit reserve_exact')
def _(I_, st, a, d, c, site, e): return UNIT
@M('seq', 'fill')
def _(I_, st, a, d, c, site, e):
    x = derefv(I_, st, a[1])
    I_.write(st, I_.place_of(st, a[0]), Seq(d.n, lambda j: x)); return UNIT
@M('seq', 'assign copy_from_slice clone_from_slice assign_to')
def _(I_, st, a, d, c, site, e):
    y = I_.deref(st, a[1])
    if c['name'] == 'assign_to' or not isinstance(y, Seq): return NotImplemented
    same_len(I_, st, d, y, site)
    I_.write(st, I_.place_of(st, a[0]), Seq(d.n, lambda j: derefv(I_, st, bc(d, y, j)))); return UNIT
@M('seq', 'mapv map mapv_into mapv_into_any')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); p = p if isinstance(p, Ref) else Ref(st.new(d))
    if d.guard is not None: return NotImplemented
    f = Ref(st.new(a[1])) if not isinstance(a[1], (Ref, FnV)) else a[1]
    byref = c['name'] == 'map' and 'ndarray' in c['path']
    s = Stream(d.n, lambda s2, k: (TRUE, I_.call_value(s2, f, [p.ext(('i', k)) if byref else d.at(k)], site)))
    return to_seq(I_, st, s)
@M('seq', 'mapv_inplace map_inplace map_mut par_mapv_inplace')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    f = Ref(st.new(a[1])) if not isinstance(a[1], (Ref, FnV)) else a[1]
    def step(s2, k, item, o):
        if c['name'] == 'map_inplace': I_.call_value(s2, f, [item], site)
        else: I_.write(s2, item, I_.call_value(s2, f, [I_.read(s2, item)], site))
    I_.consume(st, stream_ref(I_, st, p, d), step)
    return UNIT
@M('seq', 'for_each')
def _(I_, st, a, d, c, site, e):
    s = stream(I_, st, a[0])
    return METHODS[('stream', 'for_each')](I_, st, [s] + a[1:], s, c, site, e)
@M('seq', 'fold')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); p = p if isinstance(p, Ref) else Ref(st.new(d))
    s = stream_ref(I_, st, p, d)
    return METHODS[('stream', 'fold')](I_, st, [s] + a[1:], s, c, site, e)
@M('seq', 'sum product')
def _(I_, st, a, d, c, site, e):
    s = stream(I_, st, d)
    return METHODS[('stream', c['name'])](I_, st, [s], s, c, site, e)
@M('seq', 'mean')
def _(I_, st, a, d, c, site, e):
    q = bv('i', 'k')
    return opt(lt(I(0), d.n), div(sum_(d.n, q, d.at(q)), i2r(d.n)))
@M('seq', 'zip_mut_with')
def _(I_, st, a, d, c, site, e):
    y = I_.deref(st, a[1])
    if isinstance(y, VIte): return I_.branch(st, y.c, lambda s: call(I_, s, c, [a[0], y.a, a[2]], site, e), lambda s: call(I_, s, c, [a[0], y.b, a[2]], site, e))
    if not isinstance(y, Seq): return NotImplemented
    same_len(I_, st, d, y, site)
    p = I_.place_of(st, a[0]); yp = I_.place_of(st, a[1]); yp = yp if isinstance(yp, Ref) else Ref(st.new(y))
    f = Ref(st.new(a[2])) if not isinstance(a[2], (Ref, FnV)) else a[2]
    def step(s2, k, item, o):
        i = k if d.n is y.n else ite(eq(y.n, I(1)), I(0), k)
        I_.call_value(s2, f, [item, yp.ext(('i', i))], site)
    I_.consume(st, stream_ref(I_, st, p, d), step)
    return UNIT
@M('seq', 'scaled_add')
def _(I_, st, a, d, c, site, e):
    y = I_.deref(st, a[2]); al = sc(I_, st, a[1])
    if not isinstance(y, Seq): return NotImplemented
    same_len(I_, st, d, y, site)
    I_.write(st, I_.place_of(st, a[0]), Seq(d.n, lambda j: add(d.at(j), mul(al, bc(d, y, j)))))
    return UNIT
@M('seq mat', 'dot')
def _(I_, st, a, d, c, site, e):
    y = I_.deref(st, a[1])
    q = bv('i', 'k')
    if isinstance(y, VIte): return I_.branch(st, y.c, lambda s: call(I_, s, c, [a[0], y.a], site, e), lambda s: call(I_, s, c, [a[0], y.b], site, e))
    def chk(x, z):
        cc = I_.known(st, eq(x, z))
        if cc is not TRUE: I_.panics.append((and_(conj(st.pc), not_(cc)), site, 'incompatible shapes'))
    if isinstance(d, Seq) and isinstance(y, Seq):
        chk(d.n, y.n)
        return sum_(d.n, q, mul(sc(I_, st, d.at(q)), sc(I_, st, y.at(q))))
    if isinstance(d, Mat) and isinstance(y, Seq):
        chk(d.nc, y.n)
        def at(i):
            q = bv('i', 'k'); return sum_(d.nc, q, mul(d.at(i, q), y.at(q)))
        return Seq(d.nr, at)
    if isinstance(d, Seq) and isinstance(y, Mat):
        chk(d.n, y.nr)
        def at(j):
            q = bv('i', 'k'); return sum_(d.n, q, mul(d.at(q), y.at(q, j)))
        return Seq(y.nc, at)
    if isinstance(d, Mat) and isinstance(y, Mat):
        chk(d.nc, y.nr)
        def at(i, j):
            q = bv('i', 'k'); return sum_(d.nc, q, mul(d.at(i, q), y.at(q, j)))
        return Mat(d.nr, y.nc, at)
    if isinstance(y, Adt) and is_crate(y.path): return NotImplemented
    return NotImplemented
@M('seq', 'contains')
def _(I_, st, a, d, c, site, e):
    q = bv('i', 'k')
    return any_(d.n, q, and_(d.guard(q) if d.guard else TRUE, veq(I_, st, d.at(q), a[1])))
def range_sides(I_, st, d):
    "(lower, upper, upper included), None where open"
    kind_ = d.path.rsplit('::', 1)[1]; f = [sc(I_, st, x) for x in d.fields]
    if kind_ == 'Range': return f[0], f[1], False
    if kind_ == 'RangeInclusive': return f[0], f[1], True
    if kind_ == 'RangeFrom': return f[0], None, False
    if kind_ == 'RangeTo': return None, f[0], False
    if kind_ == 'RangeToInclusive': return None, f[0], True
    if kind_ == 'RangeFull': return None, None, False
@M('range', 'contains')
def _(I_, st, a, d, c, site, e):
    b = range_sides(I_, st, d); x = sc(I_, st, a[1])
    if b is None: return NotImplemented
    return and_(TRUE if b[0] is None else le(b[0], x), TRUE if b[1] is None else (le if b[2] else lt)(x, b[1]))
@M('range', 'start end')
def _(I_, st, a, d, c, site, e):
    b = range_sides(I_, st, d)
    return (b[0] if c['name'] == 'start' else b[1]) if b and d.path.endswith('Inclusive') else NotImplemented
@M('range', 'is_empty')
def _(I_, st, a, d, c, site, e):
    b = range_sides(I_, st, d)
    if b is None or b[0] is None or b[1] is None: return NotImplemented
    return not_((le if b[2] else lt)(b[0], b[1]))
@M('seq', 'swap')
def _(I_, st, a, d, c, site, e):
    i, j = sc(I_, st, a[1]), sc(I_, st, a[2])
    x, y = d.at(i), d.at(j)
    p = I_.place_of(st, a[0])
    I_.write(st, p.ext(('i', i)), y); I_.write(st, p.ext(('i', j)), x); return UNIT
@M('seq', 'reverse')
def _(I_, st, a, d, c, site, e):
    I_.write(st, I_.place_of(st, a[0]), Seq(d.n, lambda j: d.at(sub(sub(d.n, I(1)), j)))); return UNIT
@M('seq', 'retain')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0])
    if isinstance(d.tag, absint.Slot) or d.pushes or not d.ordered and d.guard is None: return unknown(I_, st, 'Vec::retain', a, e, site)
    f = Ref(st.new(a[1])) if not isinstance(a[1], (Ref, FnV)) else a[1]
    src = Ref(st.new(d))
    m = Stream(d.n, lambda s2, k: (d.guard(k) if d.guard else TRUE, I_.call_value(s2, f, [src.ext(('i', k)) if d.guard is None else Ref(s2.new(d.at(k)))], site)), d.ordered, d.guard is not None)
    r = pure(I_, st, m)
    if r is None: return unknown(I_, st, 'Vec::retain', a, e, site)
    n, q, g, v, o = r
    k = and_(g, sc(I_, st, v))
    I_.write(st, p, Unk(why(k)) if k.sort == 'u' else Seq(d.n, d.at, guard=None if k is TRUE else lambda j: subst(k, {q: j}), ordered=d.ordered)); return UNIT
@M('seq', 'dedup split_off')
def _(I_, st, a, d, c, site, e): return unknown(I_, st, 'Vec::' + c['name'], a, e, site)
@M('seq', 'concat split_at split_at_mut windows chunks chunks_exact split_first split_last')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); p = p if isinstance(p, Ref) else Ref(st.new(d))
    if c['name'] in ('windows', 'chunks', 'chunks_exact'):
        w = sc(I_, st, a[1])
        if d.guard is not None or w.sort != 'i' or w.op != 'const' or int(w.args[0]) <= 0: return unknown(I_, st, c['path'], a, e, site)
        if c['name'] == 'windows': return Stream(max2(sub(add(d.n, I(1)), w), I(0)), lambda s2, k: (TRUE, p.ext(('slice', k, add(k, w)))))
        if c['name'] == 'chunks_exact': return Stream(idiv('tdiv', d.n, w), lambda s2, k: (TRUE, p.ext(('slice', mul(k, w), mul(add(k, I(1)), w)))))
        return Stream(idiv('tdiv', add(d.n, sub(w, I(1))), w), lambda s2, k: (TRUE, p.ext(('slice', mul(k, w), min2(d.n, mul(add(k, I(1)), w))))))
    if c['name'] == 'split_at' and len(a) == 3:
        m = sc(I_, st, a[2])
        I_.panics.append((and_(conj(st.pc), lt(d.n, m)), site, 'split out of bounds'))
        return Tup((View(p.ext(('slice', I(0), m))), View(p.ext(('slice', m, d.n)))))
    if c['name'] in ('split_at', 'split_at_mut'):
        m = sc(I_, st, a[1])
        return Tup((p.ext(('slice', I(0), m)), p.ext(('slice', m, d.n))))
    if c['name'] == 'split_first':
        return opt(lt(I(0), d.n), Tup((p.ext(('i', I(0))), p.ext(('slice', I(1), d.n)))))
    if c['name'] == 'concat':
        r = METHODS[('seq', 'join')](I_, st, a, d, c, site, e)
        if r is not NotImplemented: return r
    return unknown(I_, st, c['path'], a, e, site)

# ------------------------------------------------------------------ ndarray constructors
def shape_of(I_, st, v):
    v = I_.deref(st, v)
    if isinstance(v, T): return (v,)
    if isinstance(v, Tup): return tuple(sc(I_, st, x) for x in v.items)
    if isinstance(v, Seq) and v.n.op == 'const': return tuple(sc(I_, st, v.at(I(i))) for i in range(int(v.n.args[0])))
    if isinstance(v, Adt) and v.fields: return shape_of(I_, st, v.fields[0])
    return None
def filled(I_, st, shp, f):
    if shp is None: return I_.unk('array shape')
    if len(shp) == 1: return Seq(shp[0], lambda j: f(j))
    if len(shp) == 2: return Mat(shp[0], shp[1], lambda i, j: f(i, j))
    return I_.unk('array of rank %d' % len(shp))
@FN(('ndarray', 'zeros'), ('ndarray', 'ones'), ('ndarray', 'default'), ('ndarray', 'uninit'), ('ndarray', 'from_elem'))
def _(I_, st, a, c, site, e):
    n = c['name']; shp = shape_of(I_, st, a[0])
    if n == 'uninit':
        u = 'uninit#%d' % next(absint_cells)
        return filled(I_, st, shp, lambda *ij: app('uninit', [sym(u, 'o')] + list(ij), 'r'))
    x = R(0) if n in ('zeros', 'default') else R(1) if n == 'ones' else derefv(I_, st, a[1])
    return filled(I_, st, shp, lambda *ij: x)
@FN(('ndarray', 'from_vec'), ('ndarray', 'from'), ('ndarray', 'arr1'), ('ndarray', 'aview1'), ('ndarray', 'aview_mut1'))
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[0])
    if isinstance(d, Seq) and d.lay is not None and d.guard is None and not d.pushes: return Seq(d.n, d.base, d.writes, d.guard, d.ordered, d.pushes, d.tag)
    return d if isinstance(d, Seq) else unknown(I_, st, c['path'], a, e, site)
@FN(('ndarray', 'from_iter'))
def _(I_, st, a, c, site, e):
    s = stream(I_, st, a[0])
    return to_seq(I_, st, s) if isinstance(s, Stream) else s
@FN(('ndarray', 'from_shape_fn'))
def _(I_, st, a, c, site, e):
    shp = shape_of(I_, st, a[0]); f = Ref(st.new(a[1]))
    if shp and len(shp) == 1: return to_seq(I_, st, Stream(shp[0], lambda s2, k: (TRUE, I_.call_value(s2, f, [k], site))))
    return I_.unk('from_shape_fn')
@FN(('ndarray', 'concatenate'), ('ndarray', 'stack'))
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[1])
    if c['name'] == 'concatenate' and isinstance(d, Seq) and d.n.op == 'const':
        parts = [I_.deref(st, d.at(I(i))) for i in range(int(d.n.args[0]))]
        if parts and all(isinstance(x, Seq) for x in parts):
            r = parts[0]
            for w in parts[1:]:
                n1 = r.n
                r = Seq(add(n1, w.n), (lambda r, w, n1: lambda j: vite(lt(j, n1), r.at(j), w.at(sub(j, n1))))(r, w, n1))
            return ok(r)
    return I_.unk('ndarray::' + c['name'])

# matrices
@M('mat', 'ncols')
def _(I_, st, a, d, c, site, e): return d.nc
@M('mat', 'nrows')
def _(I_, st, a, d, c, site, e): return d.nr
@M('mat', 'is_square')
def _(I_, st, a, d, c, site, e): return eq(d.nr, d.nc)
@M('mat', 'len')
def _(I_, st, a, d, c, site, e): return mul(d.nr, d.nc)
@M('mat', 'dim')
def _(I_, st, a, d, c, site, e): return Tup((d.nr, d.nc))
@M('mat', 'shape')
def _(I_, st, a, d, c, site, e): return array([d.nr, d.nc])
@M('mat', 'len_of')
def _(I_, st, a, d, c, site, e):
    x = axis(I_, st, a[1])
    return NotImplemented if x is None else (d.nr, d.nc)[x]
def axis(I_, st, v):
    v = I_.deref(st, v)
    if isinstance(v, Adt) and v.fields: v = I_.deref(st, v.fields[0])
    if isinstance(v, T) and v.op == 'const': return int(v.args[0])
    return None
@M('mat', 'column column_mut row row_mut index_axis index_axis_mut')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); n = c['name']
    if not isinstance(p, Ref): p = Ref(st.new(d))
    if 'axis' in n:
        x = axis(I_, st, a[1]); i = sc(I_, st, a[2])
        if x is None: return NotImplemented
    else: x = 1 if 'column' in n else 0; i = sc(I_, st, a[1])
    lim = d.nc if x == 1 else d.nr
    cc = I_.known(st, lt(i, lim))
    if cc is not TRUE: I_.panics.append((and_(conj(st.pc), not_(cc)), site, 'column index out of bounds'))
    return View(p.ext(('col' if x == 1 else 'row', i)))
@M('mat', 'columns columns_mut gencolumns rows rows_mut genrows outer_iter outer_iter_mut axis_iter axis_iter_mut lanes lanes_mut')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); n = c['name']
    if not isinstance(p, Ref): p = Ref(st.new(d))
    if 'col' in n: x = 1
    elif 'axis_iter' in n: x = axis(I_, st, a[1])
    elif 'lanes' in n:
        x = axis(I_, st, a[1]); x = None if x is None else 1 - x
    else: x = 0
    if x is None: return NotImplemented
    return Stream(d.nc if x == 1 else d.nr, lambda s, k: (TRUE, View(p.ext(('col' if x == 1 else 'row', k)))))
@M('mat', 't reversed_axes')
def _(I_, st, a, d, c, site, e):
    m = Mat(d.nc, d.nr, lambda i, j: d.at(j, i))
    if d.lay is None: one = or_(le(d.nc, I(1)), le(d.nr, I(1))); m.lay = Lay(sym('row_major', 'o'), one, TRUE)
    else: m.lay = Lay(d.lay.name, app('fortran_layout', [d.lay.name], 'b'), d.lay.contig)
    return m
def flat(m, by_col=False):
    if by_col: return Seq(mul(m.nr, m.nc), lambda k: m.at(idiv('trem', k, m.nr), idiv('tdiv', k, m.nr)))
    return Seq(mul(m.nr, m.nc), lambda k: m.at(idiv('tdiv', k, m.nc), idiv('trem', k, m.nc)))
@M('mat', 'as_slice as_slice_memory_order')
def _(I_, st, a, d, c, site, e):
    rows = Ref(st.new(flat(d))); one = le(mul(d.nr, d.nc), I(1))
    if d.lay is None: return some(rows)
    if c['name'] == 'as_slice': return opt(I_.known(st, or_(d.lay.std, one)), rows)
    f = app('fortran_layout', [d.lay.name], 'b')
    if d.lay.name.op == 'sym' and d.lay.name.args[0] == 'row_major': return some(Ref(st.new(flat(d, True))))
    return opt(I_.known(st, or_(d.lay.std, f, one)), vite(or_(d.lay.std, one), rows, Ref(st.new(flat(d, True)))))
@M('mat', 'iter into_iter')
def _(I_, st, a, d, c, site, e): return stream(I_, st, flat(d) if c['name'] == 'into_iter' else Ref(st.new(flat(d))))
@M('mat', 'sum')
def _(I_, st, a, d, c, site, e):
    q, r = bv('i', 'r'), bv('i', 'c')
    return sum_(d.nr, q, sum_(d.nc, r, d.at(q, r)))
@M('mat', 'clone to_owned')
def _(I_, st, a, d, c, site, e): return d
@M('mat', 'fill')
def _(I_, st, a, d, c, site, e):
    x = derefv(I_, st, a[1]); I_.write(st, I_.place_of(st, a[0]), Mat(d.nr, d.nc, lambda i, j: x)); return UNIT

# ------------------------------------------------------------------ maps and sets
def map_insert(I_, st, p, key, val):
    m = I_.read(st, p)
    if not isinstance(m, MapV): return None
    b = m.bound if m.bound is None else max2(m.bound, add(key, I(1)))
    if isinstance(m.tag if hasattr(m, 'tag') else None, absint.Slot): b = m.bound
    I_.write(st, p, m.upd(key, TRUE, val, bound=b))
    return m
@M('map', 'insert')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); key = sc(I_, st, a[1])
    if key.sort == 'u': return NotImplemented
    val = derefv(I_, st, a[2]) if d.kind == 'map' else UNIT
    map_insert(I_, st, p, key, val)
    return opt(d.mem(key), d.get(key)) if d.kind == 'map' else not_(d.mem(key))
@M('map', 'remove take')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); key = sc(I_, st, a[1])
    I_.write(st, p, d.upd(key, FALSE, d.get(key)))
    return opt(d.mem(key), d.get(key)) if d.kind == 'map' else d.mem(key)
@M('map', 'get get_mut')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); p = p if isinstance(p, Ref) else Ref(st.new(d))
    key = sc(I_, st, a[1])
    if key.sort == 'u': return Unk(why(key))
    return opt(I_.known(st, d.mem(key)), p.ext(('k', key)) if d.kind == 'map' else const_ref(I_, st, key))
@M('map', 'contains contains_key')
def _(I_, st, a, d, c, site, e): return I_.known(st, d.mem(sc(I_, st, a[1])))
@M('map', 'len')
def _(I_, st, a, d, c, site, e):
    if d.bound is None: return I_.unk('size of an unbounded map')
    q = bv('i', 'k')
    return sum_(d.bound, q, ite(d.mem(q), I(1), I(0)))
@M('map', 'is_empty')
def _(I_, st, a, d, c, site, e):
    if d.bound is None: return I_.unk('size of an unbounded map')
    q = bv('i', 'k')
    return not_(any_(d.bound, q, d.mem(q)))
@M('map', 'iter iter_mut')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); p = p if isinstance(p, Ref) else Ref(st.new(d))
    return stream_ref(I_, st, p, d)
@M('map', 'keys values values_mut into_keys into_values')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); p = p if isinstance(p, Ref) else Ref(st.new(d))
    n = c['name']
    if d.bound is None: return I_.unk('iteration over an unbounded map')
    if n == 'keys': return Stream(d.bound, lambda s, k: (d.mem(k), const_ref(I_, s, k)), False, True)
    if n == 'into_keys': return Stream(d.bound, lambda s, k: (d.mem(k), k), False, True)
    if n == 'into_values': return Stream(d.bound, lambda s, k: (d.mem(k), d.get(k)), False, True)
    return Stream(d.bound, lambda s, k: (d.mem(k), p.ext(('k', k))), False, True)
@M('map', 'drain')
def _(I_, st, a, d, c, site, e):
    I_.write(st, I_.place_of(st, a[0]), MapV(I(0), lambda j: FALSE, d.get0, kind=d.kind))
    return stream(I_, st, d)
@M('map', 'clear')
def _(I_, st, a, d, c, site, e):
    I_.write(st, I_.place_of(st, a[0]), MapV(I(0), lambda j: FALSE, d.get0, kind=d.kind)); return UNIT
@M('map', 'retain')
def _(I_, st, a, d, c, site, e):
    p = I_.place_of(st, a[0]); f = Ref(st.new(a[1]))
    if d.bound is None: return unknown(I_, st, 'retain', a, e, site)
    q = bv('i', 'k')
    s2 = st.copy()
    r = I_.call_value(s2, f, [const_ref(I_, s2, q), Ref(s2.new(d.get(q)))] if d.kind == 'map' else [const_ref(I_, s2, q)], site)
    keep = sc(I_, s2, r)
    I_.write(st, p, MapV(d.bound, lambda j: and_(d.mem(j), subst(keep, {q: j})), d.get, kind=d.kind))
    return UNIT
@M('map', 'entry')
def _(I_, st, a, d, c, site, e): return Entry(I_.place_of(st, a[0]), sc(I_, st, a[1]))
@M('entry', 'or_insert_with or_insert or_default or_insert_with_key')
def _(I_, st, a, d, c, site, e):
    m = I_.read(st, d.ref)
    if not isinstance(m, MapV): return NotImplemented
    n = c['name']
    def ins(s):
        v = a[1] if n == 'or_insert' else R(0) if n == 'or_default' else I_.call_value(s, a[1], [], site)
        if not s.dead: map_insert(I_, s, d.ref, d.key, derefv(I_, s, v))
        return UNIT
    I_.branch(st, m.mem(d.key), lambda s: UNIT, ins)
    return d.ref.ext(('k', d.key))
@M('entry', 'insert get get_mut into_mut key remove insert_entry remove_entry')
def _(I_, st, a, d, c, site, e):
    m = I_.read(st, d.ref); n = c['name']
    if not isinstance(m, MapV): return NotImplemented
    if n == 'key': return const_ref(I_, st, d.key)
    at = d.ref.ext(('k', d.key))
    if n in ('get', 'get_mut', 'into_mut'): return at
    if n in ('insert', 'insert_entry'):
        old = m.get(d.key)
        map_insert(I_, st, d.ref, d.key, derefv(I_, st, a[1]))
        return d if n == 'insert_entry' else old if 'Occupied' in c['path'] else at if 'Vacant' in c['path'] else d
    I_.write(st, d.ref, m.upd(d.key, FALSE, m.get(d.key)))
    return m.get(d.key) if n == 'remove' else Tup((d.key, m.get(d.key)))
@M('entry', 'and_modify')
def _(I_, st, a, d, c, site, e):
    m = I_.read(st, d.ref)
    if not isinstance(m, MapV): return NotImplemented
    def mod(s):
        I_.call_value(s, a[1], [d.ref.ext(('k', d.key))], site); return UNIT
    I_.branch(st, m.mem(d.key), mod, lambda s: UNIT)
    return d
@M('map', 'clone to_owned')
def _(I_, st, a, d, c, site, e): return d
@M('map', 'union intersection difference symmetric_difference is_subset is_disjoint')
def _(I_, st, a, d, c, site, e):
    y = I_.deref(st, a[1])
    if not isinstance(y, MapV) or d.bound is None or y.bound is None: return NotImplemented
    if c['name'] == 'union': return Stream(max2(d.bound, y.bound), lambda s, k: (or_(d.mem(k), y.mem(k)), const_ref(I_, s, k)), False, True)
    if c['name'] == 'intersection': return Stream(d.bound, lambda s, k: (and_(d.mem(k), y.mem(k)), const_ref(I_, s, k)), False, True)
    if c['name'] == 'difference': return Stream(d.bound, lambda s, k: (and_(d.mem(k), not_(y.mem(k))), const_ref(I_, s, k)), False, True)
    return NotImplemented

# ------------------------------------------------------------------ spaces
@M('space seq opq', 'dim')
def _(I_, st, a, d, c, site, e):
    if isinstance(d, Opq):
        h = I_.opaque.get((d.tag, 'dim'))
        return h(I_, st, d, a) if h else NotImplemented
    if isinstance(d, Seq): return d.n if 'ndarray' in c['path'] else finite(DIM, d.n)
    if d.path.endswith('ProductSpace'): 
        v = I_.deref(st, d.fields[0])
        return finite(DIM, v.n)
    return finite(DIM, I(1))
@M('space', 'card')
def _(I_, st, a, d, c, site, e):
    if d.path.endswith('Equipartition'): return finite(CARD, d.get('n_partitions'))
    if d.path.endswith('ProductSpace'):
        v = I_.deref(st, d.fields[0])
        q = bv('i', 'k')
        el = v.at(q)
        if isinstance(el, Adt) and el.path.endswith('Equipartition'):
            return finite(CARD, ite(eq(v.n, I(0)), I(0), prod_(v.n, q, el.get('n_partitions'))))
    return infinite(CARD)
@M('space', 'iter')
def _(I_, st, a, d, c, site, e):
    v = I_.deref(st, d.fields[0])
    p = I_.place_of(st, a[0])
    p = p.ext(('f', 0, None)) if isinstance(p, Ref) else Ref(st.new(v))
    return stream_ref(I_, st, p, v)
@M('space', 'into_iter')
def _(I_, st, a, d, c, site, e): return stream(I_, st, I_.deref(st, d.fields[0]))
@M('space', 'n_partitions')
def _(I_, st, a, d, c, site, e): return d.get('n_partitions')
def width(d): return div(sub(d.get('ub'), d.get('lb')), i2r(d.get('n_partitions')))
@M('space', 'partition_width')
def _(I_, st, a, d, c, site, e): return width(d)
def centres(d):
    w = width(d)
    return Seq(d.get('n_partitions'), lambda i: sub(add(d.get('lb'), mul(w, i2r(add(i, I(1))))), div(w, R(2))))
@M('space', 'centres')
def _(I_, st, a, d, c, site, e):
    if d.path.endswith('Equipartition'): return centres(d)
    v = I_.deref(st, d.fields[0])
    return Seq(v.n, lambda j: centres(v.at(j)))
@M('space', 'edges')
def _(I_, st, a, d, c, site, e):
    ed = lambda p: Seq(add(p.get('n_partitions'), I(1)), lambda i: add(p.get('lb'), mul(width(p), i2r(i))))
    if d.path.endswith('Equipartition'): return ed(d)
    v = I_.deref(st, d.fields[0])
    return Seq(v.n, lambda j: ed(v.at(j)))
def cell_of(d, val):
    return app('cell', [d.get('lb'), d.get('ub'), val, d.get('n_partitions')], 'i', 'lt')
@M('space', 'map_onto to_partition')
def _(I_, st, a, d, c, site, e):
    v = sc(I_, st, a[1])
    if d.path.endswith('Equipartition'): return cell_of(d, v)
    return NotImplemented
@M('space', 'inf sup')
def _(I_, st, a, d, c, site, e):
    if d.path.endswith('Interval'): return d.get('lb' if c['name'] == 'inf' else 'ub')
    if d.path.endswith('Equipartition'): return some(I(0) if c['name'] == 'inf' else sub(d.get('n_partitions'), I(1)))
    return NotImplemented
@M('space', 'map_onto')
def _(I_, st, a, d, c, site, e):
    if d.path.endswith('Equipartition'): return cell_of(d, sc(I_, st, a[1]))
    if not d.path.endswith('Interval'): return NotImplemented
    v = sc(I_, st, a[1])
    for f, g in (('lb', max2r), ('ub', min2r)):
        o = I_.deref(st, d.get(f)); h = I_.is_variant(o, 1)
        v = ite(h, g(v, sc(I_, st, I_.proj(st, I_.restrict(o, 1, True), ('f', 0, 1)))) if h is not FALSE else v, v)
    return v
def max2r(x, y): return ite(lt(x, y), y, x)
def min2r(x, y): return ite(lt(y, x), y, x)
@M('space', 'is_left_bounded is_right_bounded is_compact')
def _(I_, st, a, d, c, site, e):
    if d.path.endswith('Equipartition'): return TRUE
    if not d.path.endswith('Interval'): return NotImplemented
    l, u = (I_.is_variant(I_.deref(st, d.get(f)), 1) for f in ('lb', 'ub'))
    return l if 'left' in c['name'] else u if 'right' in c['name'] else and_(l, u)
@M('space', 'contains')
def _(I_, st, a, d, c, site, e):
    v = sc(I_, st, a[1])
    if d.path.endswith('Equipartition'): return lt(v, d.get('n_partitions'))
    if not d.path.endswith('Interval'): return NotImplemented
    r = TRUE
    for f, g in (('lb', lambda b: not_(lt(v, b))), ('ub', lambda b: not_(lt(b, v)))):
        o = I_.deref(st, d.get(f)); h = I_.is_variant(o, 1)
        if h is not FALSE: r = and_(r, or_(not_(h), g(sc(I_, st, I_.proj(st, I_.restrict(o, 1, True), ('f', 0, 1))))))
    return r
@M('opq', 'card')
def _(I_, st, a, d, c, site, e):
    h = I_.opaque.get((d.tag, 'card'))
    return h(I_, st, d, a) if h else Opq(app('card', [d.t], 'o'), 'card')
@M('opq', 'mul add')
def _(I_, st, a, d, c, site, e): return Opq(app(c['name'], [digest(I_, st, x) for x in a], 'o'), d.tag)
@M('any', 'type_id')
def _(I_, st, a, d, c, site, e): return I_.unk('type_id')

# ------------------------------------------------------------------ layout of types
SIZES = {'f64': 8, 'f32': 4, 'usize': 8, 'isize': 8, 'u64': 8, 'i64': 8, 'u32': 4, 'i32': 4, 'u16': 2, 'i16': 2, 'u8': 1, 'i8': 1, 'bool': 1, '()': 0, 'u128': 16, 'i128': 16, 'char': 4}
def type_arg(I_, c):
    a = [x for x in c.get('args', []) if isinstance(x, int)]
    return I_.T[a[0]]['s'] if len(a) == 1 else None
@F('core::mem::size_of', 'core::mem::align_of', 'core::mem::size_of_val', 'core::mem::align_of_val')
def _(I_, st, a, c, site, e):
    t = type_arg(I_, c)
    if t is None: return I_.unk('size of a type')
    if t in SIZES: return I(SIZES[t] if 'size' in c['name'] else max(SIZES[t], 1))
    if t.startswith('[') or t == 'str' or t.startswith('dyn '): return I_.unk('size of an unsized value')
    return app('%s<%s>' % (c['name'].replace('_val', ''), t), [], 'i')
@F('core::mem::needs_drop')
def _(I_, st, a, c, site, e):
    t = type_arg(I_, c)
    return I_.unk('needs_drop') if t is None else FALSE if t in SIZES else app('needs_drop<%s>' % t, [], 'b')
@F('core::any::type_name', 'core::any::type_name_of_val')
def _(I_, st, a, c, site, e):
    t = type_arg(I_, c)
    return I_.unk('type name') if t is None else Opq(app('type_name<%s>' % t, [], 'o'), 'string')
@M('opq', 'contains starts_with ends_with')
def _(I_, st, a, d, c, site, e):
    if d.tag != 'string' or len(a) != 2: return NotImplemented
    t = text_arg(I_, st, a[1])
    return NotImplemented if t is None else app(c['name'], [d.t, t], 'b')
@M('map opq', 'capacity')
def _(I_, st, a, d, c, site, e):
    # how much a container can hold before it grows: anything from its length up
    if isinstance(d, MapV) and d.bound is not None: n = count_true(d)
    elif isinstance(d, Opq) and d.tag == 'string': n = app('strlen', [d.t], 'i')
    else: return NotImplemented
    return add(n, sym('spare capacity at %s' % site, 'i'))
def count_true(m):
    q = bv('i', 'k')
    return sum_(m.bound, q, ite(m.mem(q), I(1), I(0)))
def _bound(hi):
    def f(I_, st, a, c, site, e): return I(hi)
    return f
for _t, (_lo, _hi) in INTS.items():
    FREE['core::num::<impl %s>::max_value' % _t] = _bound(_hi); FREE['core::num::<impl %s>::min_value' % _t] = _bound(_lo)
@F('core::mem::discriminant', 'core::intrinsics::discriminant_value')
def _(I_, st, a, c, site, e):
    d = I_.deref(st, a[0])
    if isinstance(d, VIte): return I_.branch(st, d.c, lambda s: FREE['core::mem::discriminant'](I_, s, [d.a], c, site, e), lambda s: FREE['core::mem::discriminant'](I_, s, [d.b], c, site, e))
    return I(d.var) if isinstance(d, Adt) else I_.unk('discriminant')

# ------------------------------------------------------------------ further adapters
def symbols(I_, st, f, sort, site, refs):
    "a closure of two numbers applied to two symbols, or None"
    x, y = sym('arg_x', sort), sym('arg_y', sort)
    s2 = st.copy(); n = len(I_.panics)
    r = I_.deref(s2, I_.call_value(s2, f, [Ref(s2.new(x)), Ref(s2.new(y))] if refs else [x, y], site))
    if len(I_.panics) > n or s2.dead:
        del I_.panics[n:]
        return None
    return x, y, r
def callable_(st, f): return f if isinstance(f, (Ref, FnV)) else Ref(st.new(f))
@M('stream', 'reduce')
def _(I_, st, a, s, c, site, e):
    f = callable_(st, a[1])
    r = fixed(I_, st, s)
    if r is None or r[0] is None: return I_.unk('reduction')
    n, q, g, v = r; v = I_.deref(st, v)
    z = symbols(I_, st, f, v.sort, site, False) if isinstance(v, T) and v.sort in 'ir' else None
    if z and isinstance(z[2], T):
        x, y, t = z
        for nm, h in (('max', max2), ('min', min2)):
            if t is h(x, y) or t is h(y, x): return METHODS[('stream', 'max')](I_, st, [s], s, dict(c, name=nm), site, e)
        ne = any_(n, q, g) if g is not TRUE else lt(I(0), n)
        if t is add(x, y): return opt(ne, sum_(n, q, v if g is TRUE else ite(g, v, const(0, v.sort))))
        if t is mul(x, y): return opt(ne, prod_(n, q, v if g is TRUE else ite(g, v, const(1, v.sort))))
    if g is not TRUE: return I_.unk('reduction of a filtered iterator')
    def t(s2):
        rest = shift(s); n1 = sub(rest.n, I(1))
        first_ = rest.pull(s2, I(0))[1]
        rest = Stream(n1, lambda s3, k: rest_pull(s3, add(k, I(1))), s.ordered)
        return some(METHODS[('stream', 'fold')](I_, s2, [rest, first_, f], rest, c, site, e))
    base = shift(s); rest_pull = base.pull
    return I_.branch(st, lt(I(0), base.n), t, lambda s2: none())
@M('stream', 'max_by min_by max_by_key min_by_key')
def _(I_, st, a, s, c, site, e):
    f = callable_(st, a[1]); big = c['name'].startswith('max')
    r = fixed(I_, st, s)
    if r is None or r[0] is None: return I_.unk(c['name'])
    n, q, g, v = r; w = I_.deref(st, v)
    if c['name'].endswith('key'):
        s2 = st.copy(); np = len(I_.panics)
        key = I_.deref(s2, I_.call_value(s2, f, [Ref(s2.new(v))], site))
        if len(I_.panics) > np or s2.dead or not isinstance(key, T) or key.sort not in 'ir': return I_.unk(c['name'])
    else:
        q2 = bv('i', 'k'); v2 = vsubst(v, {q: q2})
        s2 = st.copy(); np = len(I_.panics)
        o = I_.deref(s2, I_.call_value(s2, f, [Ref(s2.new(v)), Ref(s2.new(v2))], site))
        if len(I_.panics) > np or s2.dead: return I_.unk(c['name'])
        if not isinstance(o, VIte) or not isinstance(o.c, T) or o.c.op != 'lt': return I_.unk(c['name'])
        l, h = o.c.args
        less = I_.is_variant(o, 0)
        if less is not o.c and less is not not_(le(h, l)): return I_.unk(c['name'])
        if q in l.fv and q2 not in l.fv and subst(l, {q: q2}) is h: key = l
        elif q2 in l.fv and q not in l.fv and subst(h, {q: q2}) is l: key = h; big = not big
        else: return I_.unk(c['name'])
        if big != c['name'].startswith('max') and isinstance(w, T) and key is not w: return I_.unk(c['name'])
    ne = any_(n, q, g) if g is not TRUE else lt(I(0), n)
    if key.sort == 'i': lo, hi = I(0) if nonneg(key) else I(-(1 << 62)), I(1 << 62)
    else: lo, hi = NEGINF, POSINF
    m = maxr(n, q, g, key, lo) if big else minr(n, q, g, key, hi)
    if w is key: return opt(ne, m)
    if not s.ordered: return I_.unk(c['name'] + ' over an unordered iterator')
    hit = and_(g, eq(key, m))
    if c['name'].startswith('max'): i = sub(sub(n, I(1)), first(n, q, subst(hit, {q: sub(sub(n, I(1)), q)})))
    else: i = first(n, q, hit)
    return opt(ne, vsubst(v, {q: i}))
@M('stream', 'unzip')
def _(I_, st, a, s, c, site, e):
    def part(i):
        def pull(s2, k):
            g, x = s.pull(s2, k); x = I_.deref(s2, x)
            return g, x.items[i] if isinstance(x, Tup) else I_.unk('unzip') if not isinstance(x, VIte) else vite(x.c, x.a.items[i], x.b.items[i])
        return Stream(s.n, pull, s.ordered, s.guarded, s.pos)
    if fixed(I_, st, s) is None: return I_.unk('unzip of a state-changing iterator')
    out = [collect_into(I_, st, part(i), tyinfo(I_, c, 3 + i), site) for i in (0, 1)]
    return Tup(tuple(out))
@M('stream', 'partition')
def _(I_, st, a, s, c, site, e):
    f = callable_(st, a[1])
    if fixed(I_, st, s) is None: return I_.unk('partition of a state-changing iterator')
    def half(yes):
        def pull(s2, k):
            g, x = s.pull(s2, k)
            p = sc(I_, s2, I_.call_value(s2, f, [Ref(s2.new(x))], site))
            return and_(g, p if yes else not_(p)), x
        return Stream(s.n, pull, s.ordered, True, s.pos)
    return Tup(tuple(collect_into(I_, st, half(y), tyinfo(I_, c, 1), site) for y in (True, False)))
@M('stream', 'flatten flat_map')
def _(I_, st, a, s, c, site, e):
    f = callable_(st, a[1]) if c['name'] == 'flat_map' else None
    r = fixed(I_, st, s if f is None else Stream(s.n, lambda s2, k: (s.pull(s2, k)[0], I_.call_value(s2, f, [s.pull(s2, k)[1]], site)), s.ordered, s.guarded, s.pos))
    v = I_.deref(st, r[3]) if r else None
    while isinstance(v, VIte): v = v.a if isinstance(v.a, (Adt, VIte)) else v.b
    if not isinstance(v, Adt) or v.path not in (OPTION, RESULT):
        if s.guarded or s.n is None or s.n.op != 'const' or not 0 < s.n.args[0] <= 8 or s.pos is not None and not same(s.pos, I(0)): return I_.unk('flattened iterator')
        t = None
        for i in range(int(s.n.args[0])):
            x = s.pull(st, I(i))[1]
            x = stream(I_, st, I_.call_value(st, f, [x], site) if f is not None else x)
            if not isinstance(x, Stream): return I_.unk('flattened iterator')
            t = x if t is None else METHODS[('stream', 'chain')](I_, st, [t, x], t, dict(c, name='chain'), site, e)
            if not isinstance(t, Stream): return t
        return t
    w = 1 if v.path == OPTION else 0
    def pull(s2, k):
        g, x = s.pull(s2, k)
        if s2.dead or g is FALSE: return FALSE, BOT
        x = I_.deref(s2, I_.branch(s2, g, lambda s3: I_.call_value(s3, f, [x], site), lambda s3: none()) if f is not None else x)
        return and_(g, I_.is_variant(x, w)), I_.proj(s2, I_.restrict(x, w, True), ('f', 0, w))
    return Stream(s.n, pull, s.ordered, True, s.pos)
@M('stream', 'rfold rfind rposition')
def _(I_, st, a, s, c, site, e):
    t = METHODS[('stream', 'rev')](I_, st, [s], s, c, site, e)
    if not isinstance(t, Stream): return t
    nm = c['name'][1:]
    r = METHODS[('stream', nm)](I_, st, [t] + list(a[1:]), t, dict(c, name=nm), site, e)
    if nm != 'position': return r
    n = t.n
    def turn(x): return vite(x.c, turn(x.a), turn(x.b)) if isinstance(x, VIte) else some(sub(sub(n, I(1)), x.fields[0])) if isinstance(x, Adt) and x.var == 1 else x
    return turn(r)
@M('stream', 'peek')
def _(I_, st, a, s, c, site, e):
    if s.guarded and s.n is not None: return I_.unk('peek of a filtered iterator')
    def t(s2): return some(Ref(s2.new(s.pull(s2, s.pos)[1])))
    return I_.branch(st, TRUE if s.n is None else lt(s.pos, s.n), t, lambda s2: none())
@M('stream', 'next_back')
def _(I_, st, a, s, c, site, e):
    p = I_.place_of(st, a[0])
    s = need(I_, st, shift(s), 'next_back')
    if not isinstance(s, Stream) or s.n is None or not isinstance(p, Ref): return I_.unk('next_back')
    last = sub(s.n, I(1))
    def t(s2):
        x = s.pull(s2, last)[1]
        I_.write(s2, p, Stream(last, s.pull, s.ordered, s.guarded, None, s.incr))
        return some(x)
    return I_.branch(st, lt(I(0), s.n), t, lambda s2: none())
@M('opt', 'xor')
def _(I_, st, a, d, c, site, e):
    y = I_.deref(st, a[1])
    if isinstance(y, VIte): return I_.branch(st, y.c, lambda s: call(I_, s, c, [d, y.a], site, e), lambda s: call(I_, s, c, [d, y.b], site, e))
    if not isinstance(y, Adt): return NotImplemented
    return d if good(d) and not good(y) else y if good(y) and not good(d) else none()
@M('opt', 'unzip')
def _(I_, st, a, d, c, site, e):
    if not good(d): return Tup((none(), none()))
    x = I_.deref(st, d.fields[0])
    return Tup((some(x.items[0]), some(x.items[1]))) if isinstance(x, Tup) else NotImplemented
@M('opt res', 'transpose')
def _(I_, st, a, d, c, site, e):
    if d.path == OPTION and d.var == 0: return ok(none())
    if d.path == RESULT and d.var == 1: return some(d)
    def turn(x):
        if isinstance(x, VIte): return vite(x.c, turn(x.a), turn(x.b))
        if not isinstance(x, Adt): return I_.unk('transpose')
        if d.path == OPTION: return ok(some(x.fields[0])) if x.var == 0 else x
        return some(ok(x.fields[0])) if x.var == 1 else x
    return turn(I_.deref(st, d.fields[0]))
@M('res', 'is_err_and')
def _(I_, st, a, d, c, site, e): return cv(I_, st, a[1], [d.fields[0]], site) if not good(d) else FALSE
@M('opt res', 'inspect inspect_err')
def _(I_, st, a, d, c, site, e):
    if good(d) == (c['name'] == 'inspect') and d.fields: cv(I_, st, a[1], [Ref(st.new(d.fields[0]))], site)
    return BOT if st.dead else d
@M('res', 'cloned copied')
def _(I_, st, a, d, c, site, e):
    if not good(d): return d
    x = d.fields[0]
    return ok(I_.read(st, x) if isinstance(x, (Ref, VIte)) and not isinstance(I_.deref(st, x), T) else I_.deref(st, x))
@M('num', 'fract')
def _(I_, st, a, d, c, site, e): return sub(d, fn1('trunc', d))
@M('num', 'copysign')
def _(I_, st, a, d, c, site, e):
    y = sc(I_, st, a[1]); m = fn1('abs', d)
    return ite(lt(y, R(0)), neg(m), m)
@M('num', 'sin_cos')
def _(I_, st, a, d, c, site, e): return Tup((fn1('sin', d), fn1('cos', d)))
@M('num', 'to_degrees to_radians')
def _(I_, st, a, d, c, site, e):
    k = div(mk('pi', (), 'r') if 0 else R(Fraction(math.pi)), R(180))
    return mul(d, k) if c['name'] == 'to_radians' else div(d, k)
@M('num', 'maximum minimum')
def _(I_, st, a, d, c, site, e): return (max2 if c['name'] == 'maximum' else min2)(d, sc(I_, st, a[1]))
@M('num', 'unsigned_abs')
def _(I_, st, a, d, c, site, e): return fn1('abs', d)
@M('num', 'midpoint')
def _(I_, st, a, d, c, site, e):
    y = sc(I_, st, a[1])
    return div(add(d, y), R(2)) if d.sort == 'r' else idiv('tdiv', add(d, y), I(2))
@M('num', 'cbrt')
def _(I_, st, a, d, c, site, e): return app('cbrt', [d], 'r')
@M('num', 'atan2 ')
def _(I_, st, a, d, c, site, e): return mk('atan2', (d, sc(I_, st, a[1])), 'r')
@M('num', 'to_bits')
def _(I_, st, a, d, c, site, e): return app('to_bits', [d], 'i')
@M('seq', 'rotate_left rotate_right')
def _(I_, st, a, d, c, site, e):
    k = sc(I_, st, a[1])
    if d.guard is not None: return NotImplemented
    cc = I_.known(st, le(k, d.n))
    if cc is not TRUE: I_.panics.append((and_(conj(st.pc), not_(cc)), site, 'rotation beyond the end'))
    by = k if c['name'] == 'rotate_left' else sub(d.n, k)
    I_.write(st, I_.place_of(st, a[0]), Seq(d.n, lambda j: d.at(idiv('trem', add(j, by), d.n)))); return UNIT
@M('seq', 't reversed_axes diag into_dyn')
def _(I_, st, a, d, c, site, e):
    if 'ndarray' not in c['path']: return NotImplemented
    if c['name'] in ('t', 'diag'): return METHODS[('seq', 'view')](I_, st, a, d, c, site, e)
    return d
@M('seq', 'all_close abs_diff_eq')
def _(I_, st, a, d, c, site, e):
    y = I_.deref(st, a[1])
    if not isinstance(y, Seq): return NotImplemented
    tol = sc(I_, st, a[2]); q = bv('i', 'k')
    if c['name'] == 'all_close':
        same_len(I_, st, d, y, site)
        return all_(d.n, q, le(fn1('abs', sub(d.at(q), bc(d, y, q))), tol))
    return and_(eq(d.n, y.n), all_(d.n, q, le(fn1('abs', sub(d.at(q), y.at(q))), tol)))
@M('mat', 'mapv mapv_into map')
def _(I_, st, a, d, c, site, e):
    f = callable_(st, a[1]); q, r = bv('i', 'r'), bv('i', 'c')
    s2 = st.copy(); np = len(I_.panics); before = dict(st.cells)
    x = d.at(q, r)
    v = I_.deref(s2, I_.call_value(s2, f, [x if c['name'] != 'map' else Ref(s2.new(x))], site))
    if len(I_.panics) > np or s2.dead or any(s2.cells.get(k) is not o and not same(s2.cells.get(k), o) for k, o in before.items()):
        del I_.panics[np:]
        return I_.unk('map over a matrix')
    return Mat(d.nr, d.nc, lambda i, j: vsubst(v, {q: i, r: j}))
@M('mat', 'is_empty')
def _(I_, st, a, d, c, site, e): return or_(eq(d.nr, I(0)), eq(d.nc, I(0)))
@M('mat', 'indexed_iter')
def _(I_, st, a, d, c, site, e):
    f = flat(d); p = Ref(st.new(f))
    return Stream(f.n, lambda s, k: (TRUE, Tup((Tup((idiv('tdiv', k, d.nc), idiv('trem', k, d.nc))), p.ext(('i', k))))))
@M('mat', 'sum_axis')
def _(I_, st, a, d, c, site, e):
    x = axis(I_, st, a[1]); q = bv('i', 'k')
    if x is None: return NotImplemented
    return Seq(d.nc, lambda j: sum_(d.nr, q, d.at(q, j))) if x == 0 else Seq(d.nr, lambda i: sum_(d.nc, q, d.at(i, q)))

@F('core::mem::discriminant', 'std::mem::discriminant')
def _(I_, st, a, c, site, e):
    def num(v):
        if isinstance(v, VIte): return ite(v.c, num(v.a), num(v.b))
        return I(v.var) if isinstance(v, Adt) and v.var is not None else TM.unk('discriminant')
    return num(I_.deref(st, a[0]))
@M('seq', 'concat')
def _(I_, st, a, d, c, site, e):
    if d.n.op != 'const' or not 0 < d.n.args[0] <= 8: return I_.unk('concat')
    parts = [I_.deref(st, d.at(I(i))) for i in range(int(d.n.args[0]))]
    if not all(isinstance(x, Seq) and x.guard is None for x in parts): return I_.unk('concat')
    r = parts[0]
    for w in parts[1:]: r = Seq(add(r.n, w.n), (lambda r, w: lambda j: vite(lt(j, r.n), r.at(j), w.at(sub(j, r.n))))(r, w))
    return r
@M('seq', 'broadcast')
def _(I_, st, a, d, c, site, e):
    shp = shape_of(I_, st, a[1])
    if not shp or len(shp) != 1: return I_.unk('broadcast')
    n = shp[0]
    fits = or_(eq(d.n, n), eq(d.n, I(1)))
    return vite(fits, some(Ref(st.new(Seq(n, lambda j: d.at(ite(eq(d.n, I(1)), I(0), j)))))), none())
@M('opq', 'reverse')
def _(I_, st, a, d, c, site, e):
    t = d.t
    return Opq(app('lexcmp', [t.args[-1], t.args[-2]], 'o'), 'ordering') if t.op == 'app' and 'lexcmp' in t.args else NotImplemented
