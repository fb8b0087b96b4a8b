"""Abstract interpreter over the compiler's typed IR (THIR).

Every function body is turned, once, into a summary: the value terms it returns, the value terms it
leaves in each place reachable from its arguments, and the conditions under which it may panic.
Branches are joined into gated values (no path enumeration), loops and iterator chains are summarised
as index-bound terms (sums, products, pointwise writes, folds), calls to functions of the crate are
analysed in place, calls to std/ndarray/itertools/spaces go through the summary table in lib.py, and
anything not understood becomes an explicit `unknown` that can only make a verdict undecided.
"""
import json, itertools, struct, re
from fractions import Fraction
from terms import *
import terms as TM

OPTION, RESULT = 'core::option::Option', 'core::result::Result'

INTS = {'u%d' % w: (0, 2 ** w - 1) for w in (8, 16, 32, 64, 128)}
INTS.update({'i%d' % w: (-2 ** (w - 1), 2 ** (w - 1) - 1) for w in (8, 16, 32, 64, 128)})
INTS['usize'], INTS['isize'] = INTS['u64'], INTS['i64']

class Val: pass
class Tup(Val):
    def __init__(s, items): s.items = tuple(items)
    def __repr__(s): return '(%s)' % ', '.join(map(repr, s.items))
class Adt(Val):
    def __init__(s, path, var, vname, fields, fnames=None):
        s.path, s.var, s.vname, s.fields = path, var, vname, tuple(fields)
        s.fnames = tuple(fnames) if fnames else tuple(str(i) for i in range(len(s.fields)))
    def get(s, name): return s.fields[s.fnames.index(name)]
    def with_(s, i, v):
        f = list(s.fields); f[i] = v
        return Adt(s.path, s.var, s.vname, f, s.fnames)
    def __repr__(s): return '%s{%s}' % (s.vname, ', '.join('%s: %r' % x for x in zip(s.fnames, s.fields)))
class VIte(Val):
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
    def __repr__(s): return 'if %r {%r} else {%r}' % (s.c, s.a, s.b)
class BotV(Val):
    def __repr__(s): return '!'
BOT = BotV()
class Ref(Val):
    def __init__(s, cell, path=()): s.cell, s.path = cell, tuple(path)
    def __repr__(s): return '&c%d%s' % (s.cell, list(s.path) if s.path else '')
    def ext(s, p): return Ref(s.cell, s.path + (p,))
class Clo(Val):
    def __init__(s, key, env): s.key, s.env = key, env
    def __repr__(s): return 'closure %s' % s.key
class FnV(Val):
    def __init__(s, callee): s.callee = callee
    def __repr__(s): return 'fn %s' % s.callee['path']
class UFn(Val):
    "uninterpreted function value supplied by the environment"
    def __init__(s, name, f): s.name, s.f = name, f
    def __repr__(s): return 'ufn %s' % s.name
class Opq(Val):
    "opaque object identified by a term of sort 'o' (user basis, hasher, input, error, string)"
    def __init__(s, t, tag): s.t, s.tag = t, tag
    def __repr__(s): return '<%s %r>' % (s.tag, s.t)
class Str(Val):
    def __init__(s, v): s.s = v
    def __repr__(s): return repr(s.s)
class Unk(Val):
    def __init__(s, why): s.why = why
    def __repr__(s): return 'unknown<%s>' % s.why
class View(Val):
    "array view: behaves like the array it refers to"
    def __init__(s, ref): s.ref = ref
    def __repr__(s): return 'view %r' % s.ref
class RawPtr(Val):
    "raw pointer to element off of the sequence at ref"
    def __init__(s, ref, off): s.ref, s.off = ref, off
    def __repr__(s): return 'ptr %r+%r' % (s.ref, s.off)
class Entry(Val):
    def __init__(s, ref, key): s.ref, s.key = ref, key
class Stream(Val):
    """Iterator: index domain [pos, n) (n None: unbounded), pull(st, k) -> (guard, value)."""
    def __init__(s, n, pull, ordered=True, guarded=False, pos=None, incr=False):
        s.n, s.pull, s.ordered, s.guarded = n, pull, ordered, guarded
        s.pos = pos if pos is not None else I(0); s.incr = incr
    def length(s): return None if s.n is None else (s.n if s.pos is I(0) else max2(sub(s.n, s.pos), I(0)))
    def __repr__(s): return 'stream[%r]' % s.n
class Seq(Val):
    """Vec / array / slice: length n, base(j), later guarded point writes; filtered: elements are those
    with guard(j), in order (only usable as a stream or through len)."""
    def __init__(s, n, base, writes=(), guard=None, ordered=True, pushes=(), tag=None, lay=None):
        s.n, s.base, s.writes, s.guard, s.ordered, s.pushes = n, base, tuple(writes), guard, ordered, tuple(pushes)
        s.tag = tag; s.lay = lay
    def at(s, j):
        v = s.base(j)
        for g, i, x in s.writes: v = vite(and_(g, eq(j, i)), x, v)
        return v
    def write(s, i, x, g=TRUE): return Seq(s.n, s.base, s.writes + ((g, i, x),), s.guard, s.ordered, s.pushes, s.tag, s.lay)
    def __repr__(s):
        q = bv('i', 'j'); return 'seq[%r; %s -> %r]' % (s.n, q.args[0], s.at(q))
def flat(v):
    "a filtered sequence, indexed by the position among the selected elements"
    if v.guard is None or not v.ordered: return v
    q = bv('i', 'k'); g = v.guard(q)
    return Seq(sum_(v.n, q, ite(g, I(1), I(0))), lambda j: v.at(nth(v.n, q, g, j)), lay=v.lay)
class MapV(Val):
    """HashMap / HashSet keyed by usize below bound: mem(j), get(j); ops: later guarded point updates
    (guard, key, mem, value)."""
    def __init__(s, bound, mem, get, ops=(), kind='map', name=None):
        s.bound, s.mem0, s.get0, s.ops, s.kind, s.name = bound, mem, get, tuple(ops), kind, name
    def mem(s, j):
        m = s.mem0(j)
        for g, k, nm, v in s.ops: m = ite(and_(g, eq(j, k)), nm, m)
        return m
    def get(s, j):
        x = s.get0(j)
        for g, k, nm, v in s.ops: x = vite(and_(g, eq(j, k)), v, x)
        return x
    def upd(s, key, nm, v, g=TRUE, bound=None): return MapV(bound if bound is not None else s.bound, s.mem0, s.get0, s.ops + ((g, key, nm, v),), s.kind, s.name)
    def __repr__(s):
        q = bv('i', 'j'); return '%s[<%r; %s: %r -> %r]' % (s.kind, s.bound, q.args[0], s.mem(q), s.get(q))
class Lay:
    "how an array lies in memory: std - in order without gaps; contig - without gaps, in order or reversed"
    def __init__(s, name, std, contig): s.name, s.std, s.contig = name, std, contig
    @staticmethod
    def any(name):
        st_ = app('std_layout', [name], 'b')
        return Lay(name, st_, or_(st_, app('reversed_layout', [name], 'b')))
    @staticmethod
    def column(m):
        if m.lay is not None: return m.lay
        one = le(m.nc, I(1))
        return Lay(sym('column', 'o'), one, one)
    @staticmethod
    def join(c, a, b):
        if a is b: return a
        g = lambda l: (TRUE, TRUE) if l is None else (l.std, l.contig)
        return Lay((a or b).name, ite(c, g(a)[0], g(b)[0]), ite(c, g(a)[1], g(b)[1]))
class Mat(Val):
    lay = None
    def __init__(s, nr, nc, at): s.nr, s.nc, s.at = nr, nc, at
    def __repr__(s):
        i, j = bv('i', 'i'), bv('i', 'j')
        return 'mat[%r x %r; %r]' % (s.nr, s.nc, s.at(i, j))

UNIT = Tup(())
def none(): return Adt(OPTION, 0, 'None', ())
def some(x): return Adt(OPTION, 1, 'Some', (x,))
def ok(x): return Adt(RESULT, 0, 'Ok', (x,))
def err(x): return Adt(RESULT, 1, 'Err', (x,))

def is_unk(v): return isinstance(v, Unk) or (isinstance(v, T) and v.sort == 'u')
def why(v): return v.why if isinstance(v, Unk) else sorted(unk_reasons(v))[0]

def same(a, b):
    "cheap structural identity"
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Tup): return len(a.items) == len(b.items) and all(map(same, a.items, b.items))
    if isinstance(a, Adt): return a.path == b.path and a.var == b.var and len(a.fields) == len(b.fields) and all(map(same, a.fields, b.fields))
    if isinstance(a, Ref): return a.cell == b.cell and a.path == b.path
    if isinstance(a, View): return same(a.ref, b.ref)
    if isinstance(a, Opq): return a.t is b.t
    if isinstance(a, Str): return a.s == b.s
    if isinstance(a, VIte): return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Clo): return a.key == b.key and a.env == b.env
    if isinstance(a, FnV): return a.callee['path'] == b.callee['path']
    if isinstance(a, Seq): return a.n is b.n and a.base is b.base and a.guard is b.guard and wsame(a.writes, b.writes) and wsame(a.pushes, b.pushes)
    if isinstance(a, MapV): return a.mem0 is b.mem0 and a.get0 is b.get0 and wsame(a.ops, b.ops) and a.bound is b.bound
    if isinstance(a, Stream): return a.n is b.n and a.pull is b.pull and a.pos is b.pos
    return False
def wsame(a, b):
    return len(a) == len(b) and all(all(same(x, y) if isinstance(x, Val) else x is y for x, y in zip(p, q)) for p, q in zip(a, b))

def prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is y or all((same(p, q) if isinstance(p, Val) else p is q) for p, q in zip(x, y)): n += 1
        else: break
    return n

def vite(c, a, b):
    "gated join"
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is BOT: return b
    if b is BOT: return a
    if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
    if is_unk(a): return a
    if is_unk(b): return b
    if c.sort == 'u': return a if same(a, b) else Unk(why(c))
    if c.op == 'not': return vite(c.args[0], b, a)
    if same(a, b): return a
    if isinstance(a, VIte) and a.c is c: a = a.a
    if isinstance(b, VIte) and b.c is c: b = b.b
    if isinstance(a, Mat) and isinstance(b, Mat): return Mat(ite(c, a.nr, b.nr), ite(c, a.nc, b.nc), lambda i, j, a=a, b=b: vite(c, a.at(i, j), b.at(i, j)))
    if type(a) is type(b):
        if isinstance(a, Tup) and len(a.items) == len(b.items): return Tup([vite(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Adt) and a.path == b.path and a.var == b.var and len(a.fields) == len(b.fields):
            return Adt(a.path, a.var, a.vname, [vite(c, x, y) for x, y in zip(a.fields, b.fields)], a.fnames)
        if isinstance(a, Opq) and a.tag == b.tag: return Opq(ite(c, a.t, b.t), a.tag)
        if isinstance(a, Seq):
            if a.base is b.base and a.guard is b.guard and a.pushes is b.pushes and (a.n is b.n):
                p = prefix(a.writes, b.writes)
                w = a.writes[:p] + tuple((and_(c, g), i, x) for g, i, x in a.writes[p:]) + tuple((and_(not_(c), g), i, x) for g, i, x in b.writes[p:])
                return Seq(a.n, a.base, w, a.guard, a.ordered, a.pushes, a.tag, Lay.join(c, a.lay, b.lay))
            if a.base is b.base and a.writes is b.writes and (a.pushes or b.pushes):
                p = prefix(a.pushes, b.pushes)
                w = a.pushes[:p] + tuple((and_(c, g), x) for g, x in a.pushes[p:]) + tuple((and_(not_(c), g), x) for g, x in b.pushes[p:])
                return Seq(a.n, a.base, a.writes, a.guard, a.ordered, w, a.tag, Lay.join(c, a.lay, b.lay))
            if a.guard is None and b.guard is None and not a.pushes and not b.pushes:
                return Seq(ite(c, a.n, b.n), lambda j, a=a, b=b: vite(c, a.at(j), b.at(j)), ordered=a.ordered and b.ordered, lay=Lay.join(c, a.lay, b.lay))
        if isinstance(a, MapV) and a.kind == b.kind:
            if a.mem0 is b.mem0 and a.get0 is b.get0:
                p = prefix(a.ops, b.ops)
                w = a.ops[:p] + tuple((and_(c, g), k, m, x) for g, k, m, x in a.ops[p:]) + tuple((and_(not_(c), g), k, m, x) for g, k, m, x in b.ops[p:])
                bd = a.bound if a.bound is b.bound else None if a.bound is None or b.bound is None else max2(a.bound, b.bound)
                return MapV(bd, a.mem0, a.get0, w, a.kind, a.name)
            bd = None if a.bound is None or b.bound is None else ite(c, a.bound, b.bound)
            return MapV(bd, lambda j, a=a, b=b: ite(c, a.mem(j), b.mem(j)), lambda j, a=a, b=b: vite(c, a.get(j), b.get(j)), kind=a.kind)
        if isinstance(a, Mat): return Mat(ite(c, a.nr, b.nr), ite(c, a.nc, b.nc), lambda i, j, a=a, b=b: vite(c, a.at(i, j), b.at(i, j)))
        if isinstance(a, Stream) and a.pull is b.pull and a.n is b.n:
            return Stream(a.n, a.pull, a.ordered, a.guarded, ite(c, a.pos, b.pos), a.incr)
        if isinstance(a, Stream) and a.n is not None and b.n is not None:
            def pull(st, k, a=a, b=b):
                g, x = a.pull(st, k); h, y = b.pull(st, k)
                return ite(c, g, h), vite(c, x, y)
            return Stream(ite(c, a.n, b.n), pull, a.ordered and b.ordered, a.guarded or b.guarded, ite(c, a.pos, b.pos), a.incr if a.incr == b.incr else False)
        if isinstance(a, Ref) and a.cell == b.cell and len(a.path) == len(b.path):
            # same container, different index
            p = []
            for x, y in zip(a.path, b.path):
                if x == y: p.append(x)
                elif x[0] == y[0] and isinstance(x[1], T) and isinstance(y[1], T): p.append((x[0], ite(c, x[1], y[1])))
                else: break
            else: return Ref(a.cell, p)
    return VIte(c, a, b)

def vmap(v, f):
    "apply a term function to every term of a value (lazily inside containers)"
    if isinstance(v, T): return f(v)
    if isinstance(v, Tup): return Tup([vmap(x, f) for x in v.items])
    if isinstance(v, Adt): return Adt(v.path, v.var, v.vname, [vmap(x, f) for x in v.fields], v.fnames)
    if isinstance(v, VIte): return vite(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, Ref): return Ref(v.cell, [tuple(f(x) if isinstance(x, T) else x for x in p) for p in v.path])
    if isinstance(v, View): return View(vmap(v.ref, f))
    if isinstance(v, Opq): return Opq(f(v.t), v.tag)
    def lam(g):
        def h(j):
            q = bv('i', 'q')
            return vmap(vmap(g(q), f), lambda t: subst(t, {q: j}))
        return h
    if isinstance(v, Seq):
        if v.pushes: return Unk('push inside a summarised region')
        return Seq(f(v.n), lam(v.at) if v.writes else lam(v.base), guard=lam(v.guard) if v.guard else None, ordered=v.ordered, lay=v.lay)
    if isinstance(v, MapV):
        return MapV(f(v.bound) if v.bound is not None else None, lam(v.mem), lam(v.get), kind=v.kind)
    if isinstance(v, Mat):
        def at(i, j):
            a, b = bv('i', 'q'), bv('i', 'q')
            return vmap(vmap(v.at(a, b), f), lambda t: subst(t, {a: i, b: j}))
        return Mat(f(v.nr), f(v.nc), at)
    if isinstance(v, Stream):
        def pull(st, k):
            q = bv('i', 'q')
            g, x = v.pull(st, q)
            sb = lambda t: subst(t, {q: k})
            return sb(f(g)), vmap(vmap(x, f), sb)
        return Stream(f(v.n) if v.n is not None else None, pull, v.ordered, v.guarded, f(v.pos), v.incr)
    if isinstance(v, Entry): return Entry(vmap(v.ref, f), vmap(v.key, f))
    return v
def vsubst(v, m): return vmap(v, lambda t: subst(t, m)) if m else v

def rewrite(t, f, memo=None):
    "bottom-up rewriting of applications: f(app term with rewritten args) -> term or None"
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None: return r
    if t.op in ('const', 'bv', 'true', 'false', 'unk', 'inf', 'nan'): r = t
    elif t.op == 'fold':
        n, k, accs, inits, steps, which = t.args
        r = mkfold(rewrite(n, f, memo), k, accs, [rewrite(x, f, memo) for x in inits], [rewrite(x, f, memo) for x in steps], which)
    else:
        args = tuple(rewrite(a, f, memo) if isinstance(a, T) else a for a in t.args)
        r = rebuild(t, args) if any(x is not y for x, y in zip(args, t.args)) else t
        if r.op == 'app':
            x = f(r)
            if x is not None: r = x
    memo[t.id] = r
    return r

# ------------------------------------------------------------------------------- state

_cells = itertools.count(1)
class State:
    def __init__(s): s.cells = {}; s.pc = (); s.dead = False
    def copy(s):
        n = State(); n.cells = dict(s.cells); n.pc = s.pc; n.dead = s.dead
        return n
    def new(s, v):
        c = next(_cells); s.cells[c] = v
        return c
    def take(s, o): s.cells, s.pc, s.dead = o.cells, o.pc, o.dead

def merge_states(c, a, b, pc):
    r = State(); r.pc = pc
    if a.dead and b.dead: r.dead = True; r.cells = a.cells; return r
    if a.dead: r.cells = b.cells; r.pc = pc + ((not_(c),) if c is not None else ()); return r
    if b.dead: r.cells = a.cells; r.pc = pc + ((c,) if c is not None else ()); return r
    r.cells = dict(a.cells)
    for k, v in b.cells.items():
        if k in r.cells:
            if r.cells[k] is not v: r.cells[k] = vite(c, r.cells[k], v)
        else: r.cells[k] = v
    return r

class Frame:
    def __init__(s, key, vars_, entry_pc, depth): 
        s.key, s.vars, s.entry, s.returns, s.loops, s.depth = key, dict(vars_), entry_pc, [], [], depth
class LoopCtx:
    def __init__(s, label, entry): s.label, s.entry, s.breaks, s.conts = label, entry, [], []

def const_str(s):
    "a string constant as the compiler prints it in a pattern"
    import re
    m = re.match(r'^(?:Const)?Branch\(\[([^\]]*)\]\): &?str$', s.strip())
    if not m: return None
    return bytes(int(x.strip().split('_')[0]) for x in m.group(1).split(',') if x.strip()).decode('utf-8', 'replace')
def conj(pcs): return and_(*pcs) if pcs else TRUE

class Giveup(Exception): pass

class Interp:
    def __init__(self, dump):
        self.D = dump
        self.T = dump['types']
        self.fns = {f['key']: f for f in dump['fns']}
        self.panics = []      # (condition, site, what)
        self.callstack = []
        self.unknowns = {}    # reason -> site
        self.unsafe_seen = {}; self.keep_checks = False; self.unroll = 0
        self.analysed = set() # function keys
        self.sites = 0
        self.nodes = 0
        self.overrides = {}   # fn key or path -> python handler(interp, st, args)
        self.notes = []
        self.assume = TRUE
        self.uncalls = []
        import lib
        self.lib = lib
        self.adts = {a['path']: a for a in dump['adts']}
        self.adts.update({a['path']: a for a in dump['ext_adts'] if a['path'] not in self.adts})
        self.budget = 400000
        self.opaque = {}      # (tag, method) -> handler(interp, st, value, args)
        self.frames = []; self.callstack = []; self.depth = 0

    # ---------------------------------------------------------------- lookup
    def ty(self, i): return self.T[i]
    def tys(self, i): return self.T[i]['s']
    def find(I_self, **kw):
        "functions by semantic anchor: name, self (ADT path), trait, traitargs predicate"
        out = []
        for f in I_self.D['fns']:
            if f.get('kind') not in ('Fn', 'AssocFn'): continue
            if 'name' in kw and f.get('name') != kw['name']: continue
            if 'self' in kw:
                if 'implself' not in f: continue
                t = I_self.T[f['implself']]
                if t.get('path') != kw['self']: continue
            if 'trait' in kw:
                if (f.get('trait') or f.get('intrait')) != kw['trait']: continue
            if 'path' in kw and f['path'] != kw['path']: continue
            if 'pred' in kw and not kw['pred'](f): continue
            out.append(f)
        return out
    def dispatch(self, trait, name, selfval, traitargs=None):
        "impl method of a crate trait for an abstract value"
        if isinstance(selfval, Adt):
            c = self.find(name=name, self=selfval.path, trait=trait)
            if len(c) > 1 and traitargs is not None and len(traitargs) > 1:
                want = [self.tys(a) for a in traitargs[1:]]
                c2 = [f for f in c if [self.tys(a) for a in f['traitargs'][1:]] == want]
                if c2: c = c2
            if len(c) > 1:
                c2 = [f for f in c if self.fits(f, selfval)]
                if c2: c = c2
            if len(c) == 1: return c[0]
            if not c:
                d = [f for f in self.D['fns'] if f.get('intrait') == trait and f.get('name') == name and 'body' in f]
                if len(d) == 1: return d[0]
        return None
    def fits(self, f, v):
        "does the impl's self type fit the shape of an abstract value (Fixed<Vec<f64>> vs Fixed<(usize, HashSet)>)"
        t = self.T[f['implself']]
        def fit(t, v):
            t = self.T[t]
            if t['k'] == 'tuple': return isinstance(v, Tup)
            if t['k'] == 'adt' and t['path'].endswith('::Vec'): return isinstance(v, Seq)
            return True
        if t.get('args') and v.fields: return fit(t['args'][0], v.fields[0])
        return True

    def unk(self, why, site=''):
        self.unknowns.setdefault(why, site)
        return Unk(why)

    # ---------------------------------------------------------------- places
    def read(self, st, ref):
        if isinstance(ref, VIte): return vite(ref.c, self.read(st, ref.a), self.read(st, ref.b))
        if isinstance(ref, Unk): return ref
        if ref is BOT: return BOT
        if not isinstance(ref, Ref): return self.unk('read through %s' % type(ref).__name__)
        v = st.cells.get(ref.cell, BOT)
        for p in ref.path: v = self.proj(st, v, p)
        return v
    def proj(self, st, v, p):
        if isinstance(v, VIte): return vite(v.c, self.proj(st, v.a, p), self.proj(st, v.b, p))
        if is_unk(v): return v if isinstance(v, Unk) else Unk(why(v))
        if v is BOT: return BOT
        k = p[0]
        if isinstance(v, View): v = self.read(st, v.ref); return self.proj(st, v, p)
        if k == 'f':
            if isinstance(v, Tup): return v.items[p[1]]
            if isinstance(v, Adt):
                if p[1] < len(v.fields) and (p[2] is None or p[2] == v.var): return v.fields[p[1]]
                return BOT
        if k == 'raw' and isinstance(v, Seq): return v.at(p[1])
        if k == 'i':
            if isinstance(v, Seq):
                v = flat(v)
                if v.guard is not None: return self.unk('indexing a filtered sequence')
                if v.pushes:
                    return self.unk('indexing while pushing')
                return v.at(p[1])
        if k == 'k' and isinstance(v, MapV): return v.get(p[1])
        if k == 'ij' and isinstance(v, Mat): return v.at(p[1], p[2])
        if k == 'col' and isinstance(v, Mat): return Seq(v.nr, lambda i: v.at(i, p[1]), lay=Lay.column(v))
        if k == 'row' and isinstance(v, Mat): return Seq(v.nc, lambda j: v.at(p[1], j), lay=v.lay)
        if k in ('rev', 'slice') and isinstance(v, Seq): v = flat(v)
        if k == 'rev' and isinstance(v, Seq) and v.guard is None: return Seq(v.n, lambda j: v.at(sub(sub(v.n, I(1)), j)))
        if k == 'slice' and isinstance(v, Seq) and v.guard is None: return Seq(sub(p[2], p[1]), lambda j: v.at(add(j, p[1])), lay=v.lay)
        if isinstance(v, Ref): return self.proj(st, self.read(st, v), p)
        if isinstance(v, Entry) and k == 'f': return v
        return self.unk('projection %s of %s' % (k, type(v).__name__))
    def write(self, st, ref, val):
        if isinstance(ref, VIte):
            old = st.copy()
            a = st.copy(); self.write(a, ref.a, val)
            b = st.copy(); self.write(b, ref.b, val)
            m = merge_states(ref.c, a, b, st.pc)
            st.cells = m.cells
            return
        if not isinstance(ref, Ref):
            if ref is BOT: return
            self.unk('write through %s' % type(ref).__name__)
            # anything may have changed
            for c in list(st.cells): st.cells[c] = Unk('write through unknown reference')
            return
        st.cells[ref.cell] = self.upd(st, st.cells.get(ref.cell, BOT), ref.path, val)
    def upd(self, st, v, path, val):
        if not path: return val
        if isinstance(v, VIte): return vite(v.c, self.upd(st, v.a, path, val), self.upd(st, v.b, path, val))
        if is_unk(v) or v is BOT: return v
        p, rest = path[0], path[1:]
        if isinstance(v, (Ref,)):
            self.write(st, Ref(v.cell, v.path + path), val); return v
        if isinstance(v, View):
            r = v.ref
            if isinstance(r, Ref): self.write(st, Ref(r.cell, r.path + path), val)
            else: return self.unk('write through view of unknown')
            return v
        if p[0] == 'f':
            if isinstance(v, Tup):
                it = list(v.items); it[p[1]] = self.upd(st, it[p[1]], rest, val); return Tup(it)
            if isinstance(v, Adt):
                if p[1] < len(v.fields) and (p[2] is None or p[2] == v.var): return v.with_(p[1], self.upd(st, v.fields[p[1]], rest, val))
                return v
        if isinstance(v, Seq) and not v.pushes and (p[0] == 'i' and v.guard is None or p[0] == 'raw'):
            return v.write(p[1], self.upd(st, v.at(p[1]), rest, val) if rest else val)
        if p[0] == 'k' and isinstance(v, MapV):
            return v.upd(p[1], v.mem(p[1]), self.upd(st, v.get(p[1]), rest, val) if rest else val)
        if p[0] == 'rev' and isinstance(v, Seq):
            last = sub(v.n, I(1))
            if rest and rest[0][0] == 'i': return self.upd(st, v, (('i', sub(last, rest[0][1])),) + rest[1:], val)
            if not rest and isinstance(val, Seq): return Seq(v.n, lambda j: val.at(sub(last, j)), lay=v.lay)
        if p[0] == 'slice' and isinstance(v, Seq):
            if rest and rest[0][0] == 'i': return self.upd(st, v, (('i', add(rest[0][1], p[1])),) + rest[1:], val)
            if not rest and isinstance(val, Seq):
                lo, hi = p[1], p[2]
                return Seq(v.n, lambda j: vite(and_(le(lo, j), lt(j, hi)), val.at(sub(j, lo)), v.at(j)))
        if isinstance(v, Mat):
            if p[0] == 'ij' and not rest:
                i0, j0 = p[1], p[2]
                return Mat(v.nr, v.nc, lambda i, j: vite(and_(eq(i, i0), eq(j, j0)), val, v.at(i, j)))
            if p[0] == 'col':
                nv = self.upd(st, Seq(v.nr, lambda i: v.at(i, p[1])), rest, val)
                if isinstance(nv, Seq): 
                    return MatUpd(v, p[1], nv)
        return self.unk('update %s of %s' % (p[0], type(v).__name__))
    def deref(self, st, v):
        "follow references and views down to a value"
        n = 0
        while n < 12:
            n += 1
            if isinstance(v, Ref): v = self.read(st, v)
            elif isinstance(v, View): v = self.read(st, v.ref)
            elif isinstance(v, VIte):
                a, b = self.deref(st, v.a), self.deref(st, v.b)
                return vite(v.c, a, b)
            else: return v
        return v
    def place_of(self, st, v):
        "innermost reference: the place that holds the value"
        n = 0
        while n < 12:
            n += 1
            if isinstance(v, View): v = v.ref; continue
            if isinstance(v, Ref):
                x = self.read(st, v)
                if isinstance(x, (Ref, View)): v = x; continue
                if isinstance(x, VIte) and isinstance(x.a, (Ref, View, VIte)) and isinstance(x.b, (Ref, View, VIte)):
                    y = self.place_of(st, x)
                    if isinstance(y, (Ref, VIte)) and self.all_refs(y): return y
                return v
            if isinstance(v, VIte):
                return vite(v.c, self.place_of(st, v.a), self.place_of(st, v.b))
            return v
        return v
    def all_refs(self, v):
        return isinstance(v, Ref) or (isinstance(v, VIte) and self.all_refs(v.a) and self.all_refs(v.b))

    # ---------------------------------------------------------------- control
    def known(self, st, c):
        "decide a condition from the assumptions on the current path"
        if c is TRUE or c is FALSE or c.sort == 'u': return c
        for p in st.pc:
            ps = p.args if p.op == 'and' else (p,)
            for q in ps:
                if q is c: return TRUE
                if not_(q) is c: return FALSE
        n = not_(c)
        if n.op == 'and':
            # c is a disjunction of negations
            cs = [not_(x) for x in n.args]
            left = []
            for x in cs:
                k = self.known(st, x)
                if k is TRUE: return TRUE
                if k is not FALSE: left.append(x)
            if len(left) < len(cs): return or_(*left)
        elif c.op == 'and':
            left = []
            for x in c.args:
                k = self.known(st, x)
                if k is FALSE: return FALSE
                if k is not TRUE: left.append(x)
            if len(left) < len(c.args): return and_(*left)
        return c
    def branch(self, st, c, then, els):
        "evaluate both sides and join; then/els: state -> value"
        if st.dead: return BOT
        c = self.known(st, c)
        if c is TRUE: return then(st)
        if c is FALSE: return els(st)
        pc = st.pc
        a = st.copy(); a.pc = pc + (c,)
        b = st.copy(); b.pc = pc + (not_(c),)
        va = then(a); vb = els(b)
        m = merge_states(c, a, b, pc)
        st.take(m)
        if a.dead and b.dead: return BOT
        if a.dead: return vb
        if b.dead: return va
        return vite(c, va, vb)
    def panic(self, st, site, what):
        if st.dead: return BOT
        self.panics.append((conj(st.pc), site, what))
        st.dead = True
        return BOT

    # ---------------------------------------------------------------- calls
    def call_fn(self, st, key, args, site=''):
        f = self.fns.get(key)
        if f is None or 'body' not in f: return self.unk('no body for %s' % key, site)
        ov = self.overrides.get(key) or self.overrides.get(f['path'])
        if ov: return ov(self, st, args)
        self.analysed.add(key)
        self.depth = getattr(self, 'depth', 0)
        if self.depth > 40:
            fr = (key, st.pc, args, {c: v for c, v in st.cells.items()})
            for k0, pc0, a0, c0 in self.callstack[30:]:
                # the same call, in the same state, on the same path: it never returns
                if k0 == key and len(a0) == len(args) and conj(pc0) is conj(st.pc) and all(same(x, y) for x, y in zip(a0, args)) \
                        and all(st.cells.get(c) is v or same(st.cells.get(c), v) for c, v in c0.items()):
                    return self.panic(st, site, 'recursion that never ends in %s' % f['path'])
            return self.unk('recursion in %s' % f['path'], site)
        self.depth += 1
        self.callstack.append((key, st.pc, args, dict(st.cells) if self.depth > 30 else {}))
        try:
            return self.run_body(st, f, args, {})
        finally: self.depth -= 1; self.callstack.pop()
    def run_body(self, st, f, args, env):
        pc0 = st.pc
        fr = Frame(f['key'], env, pc0, self.depth)
        params = f['params']
        if f.get('kind') == 'Closure' and len(params) == len(args) + 1: params = params[1:]
        if len(params) != len(args): return self.unk('arity of %s' % f['path'])
        self.frames = getattr(self, 'frames', [])
        self.frames.append(fr)
        try:
            for p, a in zip(params, args):
                if p is None: continue
                c = st.new(a)
                self.bind_irrefutable(st, fr, p, Ref(c))
            v = self.eval(st, fr, f['body'])
        finally: self.frames.pop()
        return self.finish(st, fr, v, pc0)
    def finish(self, st, fr, v, pc0):
        "join early returns with the fall-through"
        if not fr.returns:
            if not st.dead: st.pc = pc0
            return v
        s = st.copy()
        val = v
        if s.dead: val = BOT
        for rel, rv, rst in reversed(fr.returns):
            if val is BOT and s.dead:
                s = rst.copy(); s.pc = pc0; s.dead = False; val = rv
                continue
            a = rst.copy(); a.dead = False
            s = merge_states(rel, a, s, pc0)
            val = vite(rel, rv, val)
        s.pc = pc0
        st.take(s)
        return val
    def call_value(self, st, f, args, site=''):
        "call a closure / function value"
        if st.dead: return BOT
        f = self.deref(st, f)
        if isinstance(f, VIte):
            return self.branch(st, f.c, lambda s: self.call_value(s, f.a, args, site), lambda s: self.call_value(s, f.b, args, site))
        if isinstance(f, Clo):
            fn = self.fns.get(f.key)
            if fn is None: return self.unk('closure body missing')
            self.analysed.add(f.key)
            if getattr(self, 'depth', 0) > 40: return self.unk('recursion')
            self.depth = getattr(self, 'depth', 0) + 1
            try: return self.run_body(st, fn, args, f.env)
            finally: self.depth -= 1
        if isinstance(f, FnV): return self.call(st, f.callee, args, site, None)
        if isinstance(f, UFn): return f.f(self, st, [self.deref(st, a) for a in args])
        if isinstance(f, Unk): return f
        if f is BOT: return BOT
        u = self.unk('call of %s' % type(f).__name__, site)
        for a in args: lib.havoc(self, st, a, u)
        return u
    def call(self, st, callee, args, site, e):
        if st.dead: return BOT
        self.sites += 1
        path, name = callee['path'], callee.get('name', '')
        if callee.get('unsafe'):
            r = self.call1(st, callee, args, site, e)
            self.unsafe_seen.setdefault(site, []).append(why(r) if is_unk(r) else None)
            return r
        return self.call1(st, callee, args, site, e)
    def call1(self, st, callee, args, site, e):
        path, name = callee['path'], callee.get('name', '')
        if callee.get('kind', '').startswith('Ctor'):
            a = self.adts.get(callee['adt'])
            fn = [x['name'] for x in a['variants'][callee['variant']]['fields']] if a else None
            return Adt(callee['adt'], callee['variant'], callee['vname'], args, fn)
        tr = callee.get('trait')
        if tr in ('core::ops::function::Fn', 'core::ops::function::FnMut', 'core::ops::function::FnOnce'):
            return self.call_value(st, args[0], list(args[1].items) if isinstance(args[1], Tup) else [args[1]], site)
        ov = self.overrides.get(path)
        if ov: return ov(self, st, args)
        r = callee.get('resolved')
        if r and r.get('local') and r.get('key') in self.fns:
            fn = self.fns[r['key']]
            if fn.get('derived'):
                x = self.lib.derived(self, st, fn, callee, args, site)
                if x is not None: return x
            if 'intrait' in fn:
                # default method: prefer the implementation of the actual value
                d = self.dispatch(fn['intrait'], name, self.deref(st, args[0]) if args else None, callee['args'])
                if d: return self.call_fn(st, d['key'], args, site)
                if self.lib.is_opaque_trait(self, st, fn['intrait'], args): return self.lib.opaque_method(self, st, fn['intrait'], name, args, site)
            return self.call_fn(st, r['key'], args, site)
        if tr and (tr.startswith('crate::') or not r):
            sv = self.deref(st, args[0]) if args else None
            if isinstance(sv, VIte):
                place = self.place_of(st, args[0]) if isinstance(args[0], (Ref, View)) else None
                def side(x):
                    def go(s):
                        if isinstance(place, Ref): self.write(s, place, x)
                        return self.call(s, callee, [args[0] if isinstance(place, Ref) else x] + list(args[1:]), site, e)
                    return go
                return self.branch(st, sv.c, side(sv.a), side(sv.b))
            d = self.dispatch(tr, name, sv, callee['args'])
            if d: return self.call_fn(st, d['key'], args, site)
            if tr.startswith('crate::'): return self.lib.opaque_method(self, st, tr, name, args, site)
        elif callee.get('local') and callee.get('key') in self.fns:
            return self.call_fn(st, callee['key'], args, site)
        return self.lib.call(self, st, callee, args, site, e)

    # ---------------------------------------------------------------- patterns
    def bind_irrefutable(self, st, fr, p, place):
        c, binds = self.pat(st, p, place)
        self.do_binds(st, fr, binds)
    def do_binds(self, st, fr, binds):
        for var, byref, place in binds:
            fr.vars[var] = st.new(place if byref else self.read(st, place))
    def pat(self, st, p, place):
        "(condition term, [(var, byref, place)])"
        k = p['k']
        if k == 'Wild': return TRUE, []
        if k == 'Bind':
            c, b = (TRUE, [])
            if 'sub' in p: c, b = self.pat(st, p['sub'], place)
            return c, [(p['var'], p['byref'], place)] + b
        if k in ('Deref', 'DerefPattern'):
            v = self.read(st, place)
            if isinstance(v, (Ref, VIte)) and self.all_refs(v): return self.pat(st, p['sub'], v)
            if isinstance(v, Unk): return TM.unk(v.why), self.unk_binds(p)
            return self.pat(st, p['sub'], place)
        if k == 'Leaf':
            cs, bs = [], []
            for i, sp in p['fields']:
                c, b = self.pat(st, sp, self.ext(place, ('f', i, None)))
                cs.append(c); bs += b
            return and_(*cs), bs
        if k == 'Variant':
            v = self.read(st, place)
            if isinstance(v, Entry):
                m = self.read(st, v.ref)
                return (m.mem(v.key) if p['vname'] == 'Occupied' else not_(m.mem(v.key))) if isinstance(m, MapV) else TM.unk('entry of an unknown map'), [b for i, sp in p['fields'] for b in self.pat(st, sp, place)[1]]
            c = self.is_variant(v, p['variant'])
            cs, bs = [c], []
            for i, sp in p['fields']:
                c2, b = self.pat(st, sp, self.ext(place, ('f', i, p['variant'])))
                cs.append(c2); bs += b
            return and_(*cs), bs
        if k == 'Const':
            v = self.deref(st, self.read(st, place))
            if isinstance(v, Str):
                x = const_str(p['value'])
                return (B(v.s == x) if x is not None else TM.unk('string pattern')), []
            x = self.parse_const(p['value'], self.T[p['ty']]['s'])
            if x is None or not isinstance(v, T): return TM.unk('constant pattern'), []
            if x.sort == 'b': return (v if x is TRUE else not_(v)), []
            return eq(v, x), []
        if k == 'Range':
            v = self.deref(st, self.read(st, place))
            import re
            m = re.match(r'^(-?\d+)?[^.]*\.\.(=?)(-?\d+)?', p['value'])
            if isinstance(v, T) and m and v.sort == 'i':
                cs = []
                if m.group(1): cs.append(le(I(int(m.group(1))), v))
                if m.group(3): cs.append(le(v, I(int(m.group(3)))) if m.group(2) else lt(v, I(int(m.group(3)))))
                return and_(*cs), []
            return TM.unk('range pattern'), []
        if k == 'Slice':
            v = self.deref(st, self.read(st, place))
            if isinstance(v, Seq) and 'slice' not in p and v.guard is None:
                cs = [eq(v.n, I(len(p['prefix']) + len(p['suffix'])))]; bs = []
                for i, sp in enumerate(p['prefix'] + p['suffix']):
                    c, b = self.pat(st, sp, self.ext(place, ('i', I(i))))
                    cs.append(c); bs += b
                return and_(*cs), bs
            return TM.unk('slice pattern'), self.unk_binds(p)
        if k == 'Or': return TM.unk('nested or-pattern'), []
        return TM.unk('pattern ' + k), []
    def unk_binds(self, p): return []
    def ext(self, place, step):
        if isinstance(place, VIte): return vite(place.c, self.ext(place.a, step), self.ext(place.b, step))
        if isinstance(place, Ref): return place.ext(step)
        return place
    def is_variant(self, v, var):
        if isinstance(v, Adt): return B(v.var == var)
        if isinstance(v, VIte): return ite(v.c, self.is_variant(v.a, var), self.is_variant(v.b, var))
        if v is BOT: return FALSE
        if isinstance(v, Unk): return TM.unk(v.why)
        return TM.unk('variant test on %s' % type(v).__name__)
    def restrict(self, v, var, want):
        "keep only the alternatives of a gated enum value that are (not) of a variant"
        if isinstance(v, VIte):
            a, b = self.restrict(v.a, var, want), self.restrict(v.b, var, want)
            if a is BOT: return b
            if b is BOT: return a
            return vite(v.c, a, b)
        if isinstance(v, Adt): return v if (v.var == var) == want else BOT
        return v
    def refine(self, st, p, place, want):
        "use a variant test to narrow gated values held in places"
        if p['k'] in ('Deref', 'DerefPattern'):
            v = self.read(st, place)
            if isinstance(v, Ref): self.refine(st, p['sub'], v, want)
            return
        if not isinstance(place, Ref): return
        if p['k'] == 'Variant':
            v = self.read(st, place)
            if isinstance(v, VIte) and not (not want and any(x['k'] != 'Wild' and not (x['k'] == 'Bind') for _, x in p['fields'])):
                r = self.restrict(v, p['variant'], want)
                if r is not BOT: self.write(st, place, r)
            if want:
                for i, sp in p['fields']: self.refine(st, sp, place.ext(('f', i, p['variant'])), True)
        elif p['k'] == 'Leaf' and want:
            for i, sp in p['fields']: self.refine(st, sp, place.ext(('f', i, None)), True)
    def parse_const(self, s, ty):
        s = s.strip()
        if s in ('true', 'false'): return B(s == 'true')
        import re
        m = re.match(r'^(-?[0-9.]+(?:[eE]-?\d+)?)_?([a-z0-9]*)$', s)
        if not m: return None
        if ty in ('f64', 'f32'): return R(Fraction(m.group(1)))
        try: return I(int(m.group(1)))
        except ValueError: return None
    def match(self, st, fr, place, arms, site):
        "arms: list of (pat, guard, body)"
        flat = []
        for a in arms:
            flat += self.alts(a['pat'], a)
        return self.match_from(st, fr, place, flat, 0, site)
    def alts(self, p, a):
        if p['k'] == 'Or':
            out = []
            for q in p['pats']: out += self.alts(q, a)
            return out
        if p['k'] in ('Leaf', 'Variant'):
            for n, (i, sp) in enumerate(p['fields']):
                al = self.alts(sp, a)
                if len(al) > 1:
                    out = []
                    for sp2, _ in al:
                        q = dict(p); q['fields'] = p['fields'][:n] + [[i, sp2]] + p['fields'][n + 1:]
                        out += self.alts(q, a)
                    return out
        if p['k'] == 'Deref':
            return [(dict(p, sub=q), a) for q, _ in self.alts(p['sub'], a)]
        return [(p, a)]
    def match_from(self, st, fr, place, arms, i, site):
        if st.dead: return BOT
        if i == len(arms): return BOT if not self.mark_dead(st) else BOT
        p, a = arms[i]
        c, binds = self.pat(st, p, place)
        if i == len(arms) - 1 and a['guard'] is None: c = TRUE     # exhaustive by type checking
        def then(s):
            self.refine(s, p, place, True)
            _, b = self.pat(s, p, place) if c is not TRUE or True else (c, binds)
            self.do_binds(s, fr, b)
            if a['guard'] is None: return self.eval(s, fr, a['body'])
            return self.cond(s, fr, a['guard'], lambda s2: self.eval(s2, fr, a['body']), lambda s2: self.match_from(s2, fr, place, arms, i + 1, site))
        def els(s):
            self.refine(s, p, place, False)
            return self.match_from(s, fr, place, arms, i + 1, site)
        return self.branch(st, c, then, els)
    def mark_dead(self, st):
        st.dead = True
        return True
    def cond(self, st, fr, e, then, els):
        "conditions with pattern tests and short-circuit operators"
        while e['k'] == 'Scope': e = e['e']
        if e['k'] == 'Logical':
            if e['op'] == 'And':
                return self.cond(st, fr, e['l'], lambda s: self.cond(s, fr, e['r'], then, els), els)
            return self.cond(st, fr, e['l'], then, lambda s: self.cond(s, fr, e['r'], then, els))
        if e['k'] == 'LetCond':
            pl = self.place(st, fr, e['e'])
            if st.dead: return BOT
            arms = self.alts(e['pat'], None)
            def go(s, i):
                if i == len(arms): return els(s)
                p = arms[i][0]
                c, _ = self.pat(s, p, pl)
                def t(s2):
                    self.refine(s2, p, pl, True)
                    _, b = self.pat(s2, p, pl)
                    self.do_binds(s2, fr, b)
                    return then(s2)
                def n(s2):
                    self.refine(s2, p, pl, False)
                    return go(s2, i + 1)
                return self.branch(s, c, t, n)
            return go(st, 0)
        if e['k'] == 'Unary' and e['op'] == 'Not':
            return self.cond(st, fr, e['e'], els, then)
        v = self.eval(st, fr, e)
        if st.dead: return BOT
        c = self.scalar(st, v)
        return self.branch(st, c, then, els)
    def scalar(self, st, v):
        v = self.deref(st, v)
        if isinstance(v, T): return v
        if isinstance(v, Unk): return TM.unk(v.why)
        if isinstance(v, VIte):
            return ite(v.c, self.scalar(st, v.a), self.scalar(st, v.b))
        if v is BOT: return TM.unk('bottom')
        return TM.unk('scalar expected, got %s' % type(v).__name__)

    # ---------------------------------------------------------------- expressions
    def place(self, st, fr, e):
        k = e['k']
        if k == 'Scope': return self.place(st, fr, e['e']) if e['e']['k'] not in ('Block', 'Loop', 'Match') else self.temp(st, fr, e)
        if k in ('Var', 'Upvar'):
            c = fr.vars.get(e['var'])
            if c is None: return Unk('unbound variable')
            return Ref(c)
        if k == 'Field':
            b = self.place(st, fr, e['e'])
            return self.ext(b, ('f', e['idx'], e['variant'] if self.is_enum(e['e']) else None))
        if k == 'Deref':
            v = self.eval(st, fr, e['e'])
            if isinstance(v, RawPtr): return self.raw_elem(st, v, e['sp'])
            if isinstance(v, View): v = v.ref
            if self.all_refs(v): return v
            if isinstance(v, (Unk,)): return v
            if v is BOT: return Ref(st.new(BOT))
            return Ref(st.new(v))
        if k == 'Index':
            b = self.place(st, fr, e['e'])
            i = self.scalar(st, self.eval(st, fr, e['i']))
            self.index_check(st, b, i, e['sp'])
            return self.ext(self.place_of(st, b), ('i', i))
        return self.temp(st, fr, e)
    def raw_elem(self, st, p, site, n=None):
        "the element a raw pointer points to; an obligation that it (and n - 1 more) lie in the array"
        v = self.deref(st, self.read(st, p.ref))
        if not isinstance(v, Seq) or v.guard is not None or v.pushes:
            self.unsafe_seen.setdefault(site, []).append('pointer into %s' % type(v).__name__); return Unk('raw pointer')
        self.unsafe_seen.setdefault(site, []).append(None)
        c = and_(le(I(0), p.off), lt(p.off, v.n) if n is None else le(add(p.off, n), v.n))
        if v.lay is not None: c = and_(c, or_(v.lay.std, le(v.n, I(1))))
        c = self.known(st, c)
        if c is not TRUE: self.panics.append((and_(conj(st.pc), not_(c)), site, 'unchecked access out of bounds'))
        return self.ext(p.ref, ('i', p.off))
    def is_enum(self, e):
        t = self.T[e['ty']] if 'ty' in e else {}
        a = self.adts.get(t.get('path'))
        return bool(a and a['enum'])
    def index_check(self, st, b, i, site):
        v = self.deref(st, self.read(st, b)) if not isinstance(b, Unk) else b
        if isinstance(v, Seq): v = flat(v)
        if isinstance(v, Seq) and v.guard is None and not v.pushes:
            c = self.known(st, lt(i, v.n))
            if c is not TRUE:
                self.panics.append((and_(conj(st.pc), not_(c)), site, 'index out of bounds'))
                if self.keep_checks and c.sort == 'b': st.pc = tuple(st.pc) + (c,)
    def temp(self, st, fr, e):
        v = self.eval(st, fr, e)
        return Ref(st.new(v))
    def eval(self, st, fr, e):
        if st.dead: return BOT
        self.nodes += 1
        if self.nodes > self.budget: raise Giveup('analysis budget exceeded')
        return getattr(self, 'e_' + e['k'], self.e_unknown)(st, fr, e)
    def e_unknown(self, st, fr, e): return self.unk('expression kind %s %s' % (e['k'], e.get('what', '')), e.get('sp', ''))
    def e_Scope(self, st, fr, e):
        i = e['e']
        if i['k'] == 'Loop': return self.e_loop(st, fr, i, e['scope'])
        if i['k'] == 'Block' and i.get('targeted'): return self.labeled(st, fr, i, e['scope'])
        return self.eval(st, fr, i)
    def e_Loop(self, st, fr, e): return self.e_loop(st, fr, e, None)
    def labeled(self, st, fr, e, label):
        ctx = LoopCtx(label, st.pc); fr.loops.append(ctx)
        v = self.e_Block(st, fr, e)
        fr.loops.pop()
        return self.join_breaks(st, v, ctx.breaks, ctx.entry)
    def join_breaks(self, st, v, brs, pc0):
        s = st.copy()
        val = BOT if s.dead else v
        for rel, rv, rst in reversed(brs):
            if s.dead:
                s = rst.copy(); s.dead = False; s.pc = pc0; val = rv; continue
            a = rst.copy(); a.dead = False
            s = merge_states(rel, a, s, pc0); val = vite(rel, rv, val)
        if not s.dead: s.pc = pc0
        st.take(s)
        return val
    def e_Block(self, st, fr, e):
        for s in e['stmts']:
            if st.dead: return BOT
            if s['k'] == 'Expr': self.eval(st, fr, s['e']); continue
            p = s['pat']
            if s['init'] is None:
                self.declare(st, fr, p); continue
            if s['else'] is not None:
                pl = self.place(st, fr, s['init'])
                if st.dead: return BOT
                c, _ = self.pat(st, p, pl)
                def t(s2):
                    self.refine(s2, p, pl, True)
                    _, b = self.pat(s2, p, pl); self.do_binds(s2, fr, b); return UNIT
                self.branch(st, c, t, lambda s2: self.eval(s2, fr, s['else']))
                continue
            if p['k'] == 'Bind' and not p['byref'] and 'sub' not in p:
                v = self.eval(st, fr, s['init'])
                fr.vars[p['var']] = st.new(v)
            else:
                pl = self.place(st, fr, s['init'])
                if st.dead: return BOT
                self.bind_irrefutable(st, fr, p, pl)
        if st.dead: return BOT
        if e['expr'] is not None: return self.eval(st, fr, e['expr'])
        return UNIT
    def declare(self, st, fr, p):
        if p['k'] == 'Bind': fr.vars[p['var']] = st.new(BOT)
        for x in p.get('fields', []): self.declare(st, fr, x[1])
    def e_If(self, st, fr, e):
        return self.cond(st, fr, e['cond'], lambda s: self.eval(s, fr, e['then']),
                         lambda s: self.eval(s, fr, e['else']) if e['else'] is not None else UNIT)
    def e_LetCond(self, st, fr, e): return self.cond(st, fr, e, lambda s: TRUE, lambda s: FALSE)
    def e_Logical(self, st, fr, e): return self.cond(st, fr, e, lambda s: TRUE, lambda s: FALSE)
    def e_Match(self, st, fr, e):
        if e['src'] == 'ForLoopDesugar':
            x = self.for_loop(st, fr, e)
            if x is not None: return x
        pl = self.place(st, fr, e['e'])
        if st.dead: return BOT
        return self.match(st, fr, pl, e['arms'], e.get('sp'))
    def e_Var(self, st, fr, e): return self.read(st, self.place(st, fr, e))
    e_Upvar = e_Var
    def e_Field(self, st, fr, e): return self.read(st, self.place(st, fr, e))
    def e_Index(self, st, fr, e): return self.read(st, self.place(st, fr, e))
    def e_Deref(self, st, fr, e): return self.read(st, self.place(st, fr, e))
    def e_Borrow(self, st, fr, e):
        p = self.place(st, fr, e['e'])
        return p
    e_RawBorrow = e_Borrow
    def e_Coerce(self, st, fr, e): return self.eval(st, fr, e['e'])
    def e_Never(self, st, fr, e):
        self.eval(st, fr, e['e'])
        return BOT
    def e_Lit(self, st, fr, e):
        lk = e['lk']; v = e['v']
        if lk == 'int':
            n = int(v)
            if self.T[e['ty']]['s'] in ('f64', 'f32'): return R(-n if e['neg'] else n)
            return I(-n if e['neg'] else n)
        if lk == 'float':
            f = Fraction(v.replace('_', '').rstrip('.') if not v.endswith('.') else v[:-1])
            return const(-f if e['neg'] else f, 'r')
        if lk == 'bool': return B(v == 'true')
        if lk in ('str', 'bytestr', 'char'): return Str(v)
        if lk == 'nonhir':
            x = self.parse_const(v, self.T[e['ty']]['s'])
            if x is not None: return x
        return self.unk('literal %s' % lk)
    def e_FnItem(self, st, fr, e): return FnV(e['callee'])
    def e_Zst(self, st, fr, e): return UNIT
    def e_Const(self, st, fr, e):
        p = e['path']; m = re.match(r'core::num::<impl ([iu](?:\d+|size))>::(MAX|MIN|BITS)$', p) or re.match(r'core::(u\d+|i\d+|usize|isize)::(MAX|MIN)$', p)
        if m and m.group(1) in INTS:
            lo, hi = INTS[m.group(1)]
            return I({'MAX': hi, 'MIN': lo, 'BITS': (hi - lo).bit_length()}[m.group(2)])
        if re.search(r'f64(>|::consts)?::(MAX|MIN)$', p): return R(Fraction(2) ** 1024 - Fraction(2) ** 971) if p.endswith('MAX') else R(-(Fraction(2) ** 1024 - Fraction(2) ** 971))
        c = self.lib.CONSTS.get(p.split('::')[-1]) if not p.startswith('crate::') else None
        if c is not None: return c
        f = self.fns.get(e.get('key'))
        if f and 'body' in f:
            return self.run_body_const(st, f)
        return self.unk('constant %s' % p, e['sp'])
    def run_body_const(self, st, f):
        self.depth = getattr(self, 'depth', 0) + 1
        try: return self.run_body(st, dict(f, params=[]), [], {})
        finally: self.depth -= 1
    def e_Static(self, st, fr, e): return self.unk('static %s' % e['path'])
    def e_Tuple(self, st, fr, e): return Tup([self.eval(st, fr, x) for x in e['es']])
    def e_Array(self, st, fr, e):
        vs = [self.eval(st, fr, x) for x in e['es']]
        return array(vs)
    def e_Repeat(self, st, fr, e):
        v = self.eval(st, fr, e['e'])
        n = self.parse_const(e['n'].split(':')[0], 'usize')
        if n is None: return self.unk('array length')
        return Seq(n, lambda j: v)
    def e_Adt(self, st, fr, e):
        a = self.adts.get(e['adt'])
        names = [x['name'] for x in a['variants'][e['variant']]['fields']] if a else [n for _, n, _ in e['fields']]
        vals = [None] * len(names)
        for i, n, x in e['fields']: vals[i] = self.eval(st, fr, x)
        if st.dead: return BOT
        if any(v is None for v in vals):
            if isinstance(e.get('base'), dict):
                b = self.deref(st, self.eval(st, fr, e['base']))
                for i, v in enumerate(vals):
                    if v is None: vals[i] = self.proj(st, b, ('f', i, None))
            else:
                vals = [UNIT if v is None else v for v in vals]
        return Adt(e['adt'], e['variant'], e['vname'], vals, names)
    def e_Closure(self, st, fr, e):
        env = {}
        for c in e['caps']:
            cell = fr.vars.get(c['var'])
            if cell is None: continue
            env[c['var']] = cell if c['byref'] else st.new(st.cells.get(cell, BOT))
        return Clo(e['key'], env)
    def e_Assign(self, st, fr, e):
        v = self.eval(st, fr, e['r'])
        p = self.place(st, fr, e['l'])
        if st.dead: return BOT
        self.write(st, p, v)
        return UNIT
    def e_AssignOp(self, st, fr, e):
        v = self.eval(st, fr, e['r'])
        p = self.place(st, fr, e['l'])
        if st.dead: return BOT
        o = self.read(st, p)
        self.write(st, p, self.binop(st, e['op'].replace('Assign', ''), o, v, e))
        return UNIT
    def e_Binary(self, st, fr, e):
        a = self.eval(st, fr, e['l']); b = self.eval(st, fr, e['r'])
        if st.dead: return BOT
        return self.binop(st, e['op'], a, b, e)
    def overflow(self, st, op, a, b, e):
        "results below zero of an unsigned type, or beyond a narrow one, abort (64-bit sums and products are taken as unbounded)"
        ty = self.T[(e['l'] if 'op' in e and e['op'].endswith('Assign') else e).get('ty', -1)]['s'] if isinstance(e.get('ty'), int) else ''
        if ty not in INTS: return
        lo, hi = INTS[ty]
        r = {'Add': add, 'Sub': sub, 'Mul': mul}[op](a, b)
        if r.op == 'const' and lo <= r.args[0] <= hi: return
        cs = []
        if lo == 0 and op == 'Sub' and not nonneg(r): cs.append(lt(a, b))
        if lo < 0 and lo > -2 ** 30: cs.append(lt(r, I(lo)))
        if hi < 2 ** 30: cs.append(lt(I(hi), r))
        for c in cs:
            c = self.known(st, c)
            if c is not FALSE: self.panics.append((and_(conj(st.pc), c), e.get('sp', ''), 'arithmetic overflow'))
    def binop(self, st, op, a, b, e=None):
        a, b = self.scalar(st, a), self.scalar(st, b)
        u = usort(a, b)
        if u is not None: return u
        if op in ('Add', 'Sub', 'Mul') and a.sort == b.sort == 'i' and e is not None: self.overflow(st, op, a, b, e)
        if op == 'Add': return add(a, b)
        if op == 'Sub': return sub(a, b)
        if op == 'Mul': return mul(a, b)
        if op == 'Div':
            if a.sort == 'i' and b.sort == 'i':
                c = self.known(st, eq(b, I(0)))
                if c is not FALSE: self.panics.append((and_(conj(st.pc), c), e.get('sp', '') if e else '', 'division by zero'))
                return idiv('tdiv', a, b)
            return div(a, b)
        if op == 'Rem':
            if a.sort == 'i':
                c = self.known(st, eq(b, I(0)))
                if c is not FALSE: self.panics.append((and_(conj(st.pc), c), e.get('sp', '') if e else '', 'remainder by zero'))
                return idiv('trem', a, b)
            return mk('fmod', (a, b), 'r')
        if op == 'Lt': return lt(a, b)
        if op == 'Gt': return lt(b, a)
        if op == 'Le': return le(a, b)
        if op == 'Ge': return le(b, a)
        if op == 'Eq': return eq(a, b)
        if op == 'Ne': return not_(eq(a, b))
        if a.sort == 'b' and b.sort == 'b':
            if op == 'BitAnd': return and_(a, b)
            if op == 'BitOr': return or_(a, b)
            if op == 'BitXor': return not_(eq(a, b))
        if a.sort == 'i' and b.sort == 'i':
            if op == 'Shl' and b.op == 'const': return mul(a, I(2 ** int(b.args[0])))
            if op == 'Shr' and b.op == 'const' and nonneg(a): return idiv('tdiv', a, I(2 ** int(b.args[0])))
            return app('bit' + op, [a, b], 'i')
        return TM.unk('operator ' + op)
    def e_Unary(self, st, fr, e):
        v = self.scalar(st, self.eval(st, fr, e['e']))
        if v.sort == 'u': return v
        if e['op'] == 'Neg': return neg(v)
        if v.sort == 'b': return not_(v)
        lo, hi = INTS.get(self.T[e['ty']]['s'], INTS['usize'])
        if lo == 0 and hi < 2 ** 62: return sub(I(hi), v)
        return app('bitnot', [v, I(1 if lo < 0 else 0)], 'i')
    def e_Cast(self, st, fr, e):
        v = self.eval(st, fr, e['e'])
        if st.dead: return BOT
        if self.T[e['ty']].get('k') == 'ptr' and isinstance(v, (Ref, View, RawPtr)): return v
        return self.cast(st, v, self.T[e['ty']]['s'], self.T[e['e']['ty']]['s'])
    def cast(self, st, v, to, frm=''):
        v0 = self.deref(st, v)
        if not isinstance(v0, T): 
            if isinstance(v0, (Clo, FnV, VIte, UFn)) : return v0
            if isinstance(v0, Adt) and not v0.fields and v0.path.startswith('crate::'): v0 = I(v0.var)
        v = self.scalar(st, v0)
        if v.sort == 'u': return v
        if to == 'f32' and frm == 'f64' and not (v.op == 'const' and v.args[0] == Fraction(struct.unpack('f', struct.pack('f', float(v.args[0])))[0]) if v.op == 'const' and abs(v.args[0]) < 2 ** 127 else v.op == 'i2r'):
            return v if v.op == 'app' and v.args[0] == 'f32' else app('f32', [v], 'r')
        if to in ('f64', 'f32'):
            return i2r(v) if v.sort == 'i' else ite(v, R(1), R(0)) if v.sort == 'b' else v
        if to in ('usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'u128', 'i128'):
            if v.sort == 'b': return ite(v, I(1), I(0))
            lo, hi = INTS[to]
            if v.sort == 'r':      # saturates
                if v.op == 'i2r': v = v.args[0]
                else: v = mk('r2i', (v,), 'i')
                if lo == 0: v = max2(v, I(0))
                elif lo > -2 ** 62: v = max2(v, I(lo))
                return v if hi > 2 ** 62 else min2(v, I(hi))
            if frm not in INTS: return v
            flo, fhi = INTS[frm]
            if v.op == 'const' and lo <= v.args[0] <= hi or flo >= lo and (fhi <= hi or hi > 2 ** 62) or hi > 2 ** 62 and lo < 0: return v
            if hi > 2 ** 62 and nonneg(v): return v
            m = hi - lo + 1    # wraps
            return idiv('erem', v, I(m)) if lo == 0 else sub(idiv('erem', sub(v, I(lo)), I(m)), I(-lo))
        return v0
    def e_Call(self, st, fr, e):
        c = e.get('callee')
        if c is None:
            f = self.eval(st, fr, e['fun'])
            args = [self.eval(st, fr, a) for a in e['args']]
            if st.dead: return BOT
            return self.call_value(st, f, args, e['sp'])
        args = [self.eval(st, fr, a) for a in e['args']]
        if st.dead: return BOT
        return self.call(st, c, args, e['sp'], e)
    def e_Return(self, st, fr, e):
        v = self.eval(st, fr, e['e']) if e['e'] is not None else UNIT
        if st.dead: return BOT
        fr.returns.append((conj(st.pc[len(fr.entry):]), v, st.copy()))
        st.dead = True
        return BOT
    def e_Break(self, st, fr, e):
        v = self.eval(st, fr, e['e']) if e['e'] is not None else UNIT
        if st.dead: return BOT
        for ctx in reversed(fr.loops):
            if ctx.label == e['label'] or ctx is fr.loops[-1] and ctx.label is None:
                ctx.breaks.append((conj(st.pc[len(ctx.entry):]), v, st.copy()))
                st.dead = True
                return BOT
        st.dead = True
        return self.unk('break target')
    def e_Continue(self, st, fr, e):
        for ctx in reversed(fr.loops):
            if ctx.label == e['label'] or ctx is fr.loops[-1] and ctx.label is None:
                ctx.conts.append((conj(st.pc[len(ctx.entry):]), UNIT, st.copy()))
                st.dead = True
                return BOT
        st.dead = True
        return self.unk('continue target')

    # ---------------------------------------------------------------- loops
    def for_loop(self, st, fr, e):
        "match IntoIterator::into_iter(x) { mut iter => loop { match iter.next() { None => break, Some(pat) => body } } }"
        arm = e['arms'][0]
        b = arm['body']; label = None
        while b['k'] == 'Scope': label = b['scope']; b = b['e']
        if b['k'] != 'Loop': return None
        m = b['body']
        while m['k'] in ('Scope', 'Block'):
            if m['k'] == 'Scope': m = m['e']
            else:
                if m['stmts'] and m['expr'] is None: m = m['stmts'][0]['e']
                elif m['expr'] is not None and not m['stmts']: m = m['expr']
                else: return None
        if m['k'] != 'Match' or m['src'] != 'ForLoopDesugar': return None
        some_arm = [a for a in m['arms'] if a['pat']['k'] == 'Variant' and a['pat']['vname'] == 'Some']
        if len(some_arm) != 1: return None
        p = some_arm[0]['pat']['fields'][0][1]; body = some_arm[0]['body']
        it = self.eval(st, fr, e['e'])
        if st.dead: return BOT
        s = self.lib.stream(self, st, it)
        if not isinstance(s, Stream):
            u = self.unk('for loop over %s' % type(s).__name__, e.get('sp', ''))
            self.havoc_all(st, fr)
            return u
        def step(s2, k, item, ordered):
            c = s2.new(item)
            self.bind_irrefutable(s2, fr, p, Ref(c))
            self.eval(s2, fr, body)
        self.consume(st, s, step, fr, label)
        return UNIT
    def havoc_all(self, st, fr):
        for c in list(st.cells): st.cells[c] = Unk('unsummarised loop')
    def consume(self, st, s, step, fr=None, label=None):
        "run step(state, k, item, ordered) for every element of a stream"
        n = s.length()
        def body(s2, k):
            kk = add(k, s.pos) if s.pos is not I(0) else k
            g, item = s.pull(s2, kk)
            if s2.dead: return
            if g is TRUE: step(s2, k, item, s.ordered)
            else:
                def t(s3):
                    step(s3, k, item, s.ordered); return UNIT
                self.branch(s2, g, t, lambda s3: UNIT)
        self.loop(st, n, body, fr, label, s.ordered)
    def unrolled(self, st, fr, e, label, rounds):
        "run a loop whose exits are decided within a few iterations; None (nothing changed) when they are not"
        save = st.copy(); nret, npan = len(fr.returns), len(self.panics)
        ctx = LoopCtx(label, st.pc); entry = st.pc
        s2 = st.copy()
        for i in range(rounds):
            ctx.conts = []
            fr.loops.append(ctx)
            self.eval(s2, fr, e['body'])
            fr.loops.pop()
            if ctx.conts: self.join_breaks(s2, UNIT, ctx.conts, s2.pc if not s2.dead else entry)
            if s2.dead:
                st.take(s2)
                return self.join_breaks(st, UNIT, ctx.breaks, entry) if ctx.breaks else BOT
        st.take(save); del fr.returns[nret:]; del self.panics[npan:]
        return None
    def drains(self, st, fr, e, label):
        "while let Some(pattern) = it.next() { body } over entries in no particular order: as for pattern in it { body }"
        b = e['body']
        while b['k'] in ('Scope', 'Block'):
            if b['k'] == 'Scope': b = b['e']
            elif b['stmts'] or b['expr'] is None: return False
            else: b = b['expr']
        if b['k'] != 'If' or b['cond']['k'] != 'LetCond' or not b.get('else'): return False
        c, pt, o = b['cond']['e'], b['cond']['pat'], b['else']
        while o['k'] in ('Never', 'Scope', 'Block'):
            if o['k'] != 'Block': o = o['e']
            elif o['expr'] is not None and not o['stmts']: o = o['expr']
            elif len(o['stmts']) == 1 and o['stmts'][0]['k'] == 'Expr': o = o['stmts'][0]['e']
            else: return False
        if o['k'] != 'Break' or o['e'] is not None or label is not None and o['label'] != label: return False
        if c['k'] != 'Call' or c['callee']['path'] != 'core::iter::traits::iterator::Iterator::next' or pt['k'] != 'Variant' or pt['vname'] != 'Some': return False
        x = c['args'][0]
        while x['k'] == 'Scope': x = x['e']
        if x['k'] != 'Borrow' or x['e']['k'] != 'Var': return False
        body = json.dumps(b['then'])
        if json.dumps(x['e']['var']) in body: return False
        pl = self.place(st, fr, x['e'])
        cur = self.read(st, pl) if isinstance(pl, Ref) else None
        if not isinstance(cur, Stream) or not cur.guarded or cur.n is None: return False
        def step(s2, k, item, ordered):
            self.bind_irrefutable(s2, fr, pt['fields'][0][1], Ref(s2.new(item)))
            self.eval(s2, fr, b['then'])
        self.consume(st, cur, step, fr, label)
        if not st.dead: self.write(st, pl, Unk('an iterator left half way') if '"Break"' in body else Stream(I(0), cur.pull, cur.ordered, cur.guarded))
        return True
    def e_loop(self, st, fr, e, label):
        if self.drains(st, fr, e, label): return BOT if st.dead else UNIT
        if self.unroll:
            v = self.unrolled(st, fr, e, label, self.unroll)
            if v is not None: return v
        def body(s2, k): self.eval(s2, fr, e['body'])
        return self.loop(st, None, body, fr, label, True)

    def loop(self, st, n, body, fr, label, ordered):
        """Summarise  for k in 0..n { body }  (n None: until an exit)."""
        if st.dead: return BOT
        if n is not None and n is I(0): return UNIT
        fr = fr or (self.frames[-1] if getattr(self, 'frames', None) else Frame('', {}, st.pc, 0))
        changed = {}      # (cell, path) -> kind
        base_pc = st.pc
        k = bv('i', 'k')
        np0 = len(self.panics)
        for rounds in range(8):
            s = st.copy()
            slots = []
            for (cell, path), kind in changed.items():
                sl = Slot(self, s, cell, path, kind)
                slots.append(sl)
                slots.extend(getattr(sl, 'parts', ()))
            start = dict(s.cells)
            # the frame may be the closure's caller: intercept its exits
            nret = len(fr.returns)
            ctx = LoopCtx(label, s.pc)
            rng = (le(I(0), k), lt(k, n)) if n is not None else ()
            inner_pc = base_pc + tuple(x for x in rng if x is not TRUE)
            s.pc = inner_pc; ctx.entry = inner_pc
            fr.loops.append(ctx)
            nvars = dict(fr.vars)
            del self.panics[np0:]
            body(s, k)
            fr.loops.pop()
            rets = fr.returns[nret:]; del fr.returns[nret:]
            # returns are relative to the frame entry: make them relative to this iteration
            exits = [('break', rel, v, x) for rel, v, x in ctx.breaks] + \
                    [('return', conj(x.pc[len(inner_pc):]), v, x) for rel, v, x in rets]
            end = s
            if ctx.conts:
                UV = self.join_breaks(end, UNIT, ctx.conts, inner_pc)
            new = {}
            for sx in [end] + [x[3] for x in exits]:
                if sx.dead and sx is end: continue
                for cell in st.cells:
                    self.diff(start.get(cell), sx.cells.get(cell), cell, (), new)
            fresh = {key: kd for key, kd in new.items() if key not in changed}
            for key, kd in new.items():
                # a payload or variant seen for the first time
                if isinstance(kd, Enum) and isinstance(changed.get(key), Enum):
                    e2 = Enum(changed[key].sample + kd.sample); sh = e2.shape()
                    if sh is None or not sh[0]: changed[key] = 'other'; fresh[key] = 'other'
                    elif set(sh[1]) - set(changed[key].shape()[1]): fresh[key] = e2
            # a container slot subsumes deeper changes
            if not fresh: break
            for key, kd in fresh.items(): changed[key] = kd
            # drop slots nested in a coarser slot
            for key in list(changed):
                for o in list(changed):
                    if o != key and o[0] == key[0] and key[1][:len(o[1])] == o[1]: changed.pop(key, None)
        else:
            self.unk('loop state did not stabilise'); self.havoc_all(st, fr); return Unk('loop')
        return self.summarise(st, n, k, slots, end, exits, base_pc, inner_pc, fr, np0, ordered)

    def diff(self, a, b, cell, path, out):
        if a is b or b is None: return
        if a is None: return
        if same(a, b): return
        e = Enum([a, b])
        if isinstance(a, (Adt, VIte)) and isinstance(b, (Adt, VIte)) and not (isinstance(a, Adt) and isinstance(b, Adt) and a.var == b.var):
            sh = e.shape()
            if sh and sh[0] and all(x is not None for x in sh[1].values()):
                old = out.get((cell, path))
                out[(cell, path)] = Enum(e.sample + (old.sample if isinstance(old, Enum) else [])); return
        if type(a) is type(b):
            if isinstance(a, Tup) and len(a.items) == len(b.items):
                for i, (x, y) in enumerate(zip(a.items, b.items)): self.diff(x, y, cell, path + (('f', i, None),), out)
                return
            if isinstance(a, Adt) and a.path == b.path and a.var == b.var:
                for i, (x, y) in enumerate(zip(a.fields, b.fields)): self.diff(x, y, cell, path + (('f', i, None),), out)
                return
            if isinstance(a, T): out[(cell, path)] = 'scalar'; return
            if isinstance(a, Opq): out[(cell, path)] = 'opq'; return
            if isinstance(a, Seq): out[(cell, path)] = 'seq'; return
            if isinstance(a, MapV): out[(cell, path)] = 'map'; return
            if isinstance(a, Stream): out[(cell, path)] = 'stream'; return
            if isinstance(a, Mat): out[(cell, path)] = 'mat'; return
        if isinstance(a, Mat) and isinstance(b, Mat): out[(cell, path)] = 'mat'; return
        out[(cell, path)] = 'other'

    def summarise(self, st, n, k, slots, end, exits, base_pc, inner_pc, fr, np0, ordered):
        # after-values of every slot
        live = not end.dead
        facts = {}
        if live:
            for c in end.pc[len(inner_pc):]:
                for q in (c.args if c.op == 'and' else (c,)):
                    if q.sort != 'b' or q.op in ('true', 'false'): continue
                    if q.op == 'not': facts[q.args[0]] = FALSE
                    else: facts[q] = TRUE
        for sl in slots:
            if sl.kind == 'part': continue
            sl.after = sl.read_after(self, end) if live else None
            if facts and sl.kind in ('scalar', 'opq') and isinstance(sl.after, (T, Opq)): sl.after = vmap(sl.after, lambda t: TM.replace(t, facts))
            elif facts and sl.kind == 'stream' and isinstance(sl.after, Stream):
                a = sl.after; sl.after = Stream(a.n, a.pull, a.ordered, a.guarded, TM.replace(a.pos, facts), a.incr)
        env = {}          # acc bv -> prefix term as function of k (term in k)
        if live:
            ok_ = solve_slots(self, slots, k, ordered)
        else:
            for sl in slots: sl.freeze(k)
        def at(t, kk, m=None):
            "value of a term of the iteration at index kk"
            t = resolve(t, slots, k, kk)
            return subst(t, {k: kk})
        # trip count
        cexit = or_(*[x[1] for x in exits]) if exits else FALSE
        if not live: cexit = or_(cexit, TRUE) if exits else TRUE
        cx = resolve(cexit, slots, k, k) if exits else cexit
        full = n
        if n is None:
            n2, rest = trip(cx, k)
            if n2 is None:
                self.unk('loop without a recognised bound'); self.havoc_all(st, fr)
                return Unk('loop without a recognised bound')
            full = n2
            # all exits happen at k = full unless the remaining condition fires earlier
            neff = first(full, k, rest) if rest is not FALSE else full
        else:
            neff = first(n, k, cx) if exits or not live else n
        # panics found in the body: quantify over the iterations
        ps = self.panics[np0:]; del self.panics[np0:]
        for c, site, what in ps:
            try: c2 = resolve(c, slots, k, k)
            except Exception: c2 = TM.unk('panic condition')
            if k in c2.fv or True:
                self.panics.append((any_(neff if neff.sort != 'u' else I(1), k, c2) if k in c2.fv else c2, site, what))
        # normal completion
        fin = st.copy()
        for sl in slots: sl.finish(self, fin, k, neff)
        fin.pc = base_pc
        if not exits:
            if n is None or not live:
                st.take(fin); st.dead = True
                return BOT
            st.take(fin); return UNIT
        # exits
        happened = lt(neff, n) if n is not None else TRUE
        s = fin.copy(); val = UNIT
        if n is None: s.dead = True; val = BOT
        for kind, rel, v, x in reversed(exits):
            def f(t): return subst(resolve(t, slots, k, neff), {k: neff})
            c = and_(happened, f(rel))
            a = State(); a.pc = base_pc
            a.cells = dict(fin.cells)
            for sl in slots: pass
            changed_cells = {sl.cell for sl in slots}
            for cell in st.cells:
                if cell in changed_cells: a.cells[cell] = vmap(x.cells[cell], f)
            for sl in slots:
                # a container the exit path has not touched holds what the completed iterations left
                if sl.kind in ('seq', 'map', 'mat') and self.read(x, Ref(sl.cell, sl.path)) is getattr(sl, 'new', None):
                    fv = self.read(fin, Ref(sl.cell, sl.path))
                    if sl.path: self.write(a, Ref(sl.cell, sl.path), fv)
                    else: a.cells[sl.cell] = fv
            vv = vmap(v, f)
            if kind == 'return':
                a.pc = base_pc
                rel0 = conj(tuple(base_pc[len(fr.entry):]) + (c,))
                fr.returns.append((rel0, vv, a))
                if not s.dead: s.pc = s.pc + (not_(c),)
            else:
                if s.dead: s = a; val = vv
                else:
                    s = merge_states(c, a, s, base_pc); val = vite(c, vv, val)
        st.take(s)
        return val

def trip(c, k):
    "smallest k with c(k) for an unbounded loop: (bound term, remaining earlier exit condition)"
    cs = [not_(x) for x in not_(c).args] if not_(c).op == 'and' else [c]
    for x in cs:
        y = not_(x)
        if y.op == 'lt':       # continue while a < b
            a, b = y.args
            d = sub(b, a)      # continue while d > 0;  d = m - k
            if d.sort != 'i': continue
            parts = d.args if d.op == 'add' else (d,)
            co = 0; rest = []
            okk = True
            for p in parts:
                if k in p.fv:
                    q, bb = coeff(p)
                    if bb is not k: okk = False
                    co += q
                else: rest.append(p)
            if okk and co == -1:
                m = add(*rest) if rest else I(0)
                m = max2(m, I(0)) if not nonneg(m) else m
                return m, or_(*[z for z in cs if z is not x])
        elif y.op == 'not' and y.args[0].op == 'eq' or x.op == 'eq':
            pr = x if x.op == 'eq' else y.args[0]
            j = solve(pr.args[0], pr.args[1], k)
            if j is not None: return j, or_(*[z for z in cs if z is not x])
    return None, None

def resolve(t, slots, k, kk):
    "replace loop-carried symbols by their values at the start of iteration kk (terms in k are left alone)"
    m = {}
    for sl in slots:
        for a, pre in sl.prefix_scalars(kk): m[a] = pre
    curs = {sl.cur: sl for sl in slots if sl.cur}
    if curs:
        def f(a):
            sl = curs.get(a.args[0]) or curs.get(a.args[0][:-1]) if a.args[0].startswith('cur#') else None
            if sl is None: return None
            return sl.prefix_at(a, kk)
        # prefix values may mention other slots' symbols: they are already resolved
        t = rewrite(t, f)
    return subst(t, m)

_curid = itertools.count(1)
class Slot:
    "one loop-carried place"
    def __init__(s, I_, st, cell, path, kind):
        s.cell, s.path, s.kind = cell, path, kind
        s.cur = None; s.acc = None; s.solved = None
        r = Ref(cell, path)
        s.init = I_.read(st, r)
        v = s.init
        if kind == 'scalar':
            s.acc = bv(v.sort, 'acc'); new = s.acc
            if v.sort == 'u': new = v; s.acc = bv('i', 'acc')
        elif kind == 'opq': s.acc = bv(v.t.sort, 'acc'); new = Opq(s.acc, v.tag)
        elif kind == 'stream':
            s.acc = bv('i', 'acc'); new = Stream(v.n, v.pull, v.ordered, v.guarded, s.acc, v.incr)
        elif kind == 'seq':
            s.cur = 'cur#%d' % next(_curid)
            q = bv('i', 'q')
            e = v.at(q) if v.guard is None and not v.pushes else None
            s.ncur = bv('i', 'acc')
            if isinstance(e, T) and e.sort != 'u':
                s.esort = e.sort
                cur, es = s.cur, e.sort
                new = Seq(v.n, lambda j: app(cur, [j], es), tag=s, lay=v.lay)
            else:
                s.esort = None
                cur = s.cur
                new = Seq(v.n, lambda j: Unk('element read in loop'), tag=s, lay=v.lay)
            s.new = new
        elif kind == 'map':
            s.cur = 'cur#%d' % next(_curid)
            cur = s.cur
            q = bv('i', 'q')
            e = v.get(q)
            s.esort = e.sort if isinstance(e, T) and e.sort != 'u' else None
            es = s.esort
            new = MapV(v.bound, lambda j: app(cur + 'm', [j], 'b'), (lambda j: app(cur + 'v', [j], es)) if es else (lambda j: v.get(j) if isinstance(e, Tup) and not e.items else Unk('element read in loop')), kind=v.kind)
            s.new = new
        elif kind == 'mat':
            s.cur = 'cur#%d' % next(_curid)
            cur = s.cur
            new = Mat(v.nr, v.nc, lambda i, j: app(cur, [i, j], 'r'))
            s.new = new
        elif isinstance(kind, Enum):
            s.parts = []
            new = kind.open(s)
        else:
            new = v
        if kind in ('scalar', 'opq', 'stream', 'seq', 'map', 'mat') or isinstance(kind, Enum): I_.write(st, r, new) if path else st.cells.__setitem__(cell, new)
    def read_after(s, I_, end):
        return I_.read(end, Ref(s.cell, s.path))
    def term_after(s):
        v = s.after
        if s.kind == 'scalar': return v if isinstance(v, T) else TM.unk(v.why if isinstance(v, Unk) else 'loop scalar became %s' % type(v).__name__)
        if s.kind == 'opq': return v.t if isinstance(v, Opq) else TM.unk('loop object')
        if s.kind == 'stream': return v.pos if isinstance(v, Stream) else TM.unk('loop iterator')
    def term_init(s):
        v = s.init
        if s.kind == 'scalar': return v
        if s.kind == 'opq': return v.t
        if s.kind == 'stream': return v.pos
    def freeze(s, k):
        "the body never completes an iteration"
        if s.acc is not None: s.solved = lambda kk: s.term_init()
        else: s.solved = 'init'
    def prefix_scalars(s, kk):
        if s.acc is None: return []
        return [(s.acc, s.solved(kk) if callable(s.solved) else TM.unk('unsolved loop variable'))]
    def prefix_at(s, a, kk):
        j = a.args[2]
        if s.kind == 'mat':
            if s.solved is None: return TM.unk('matrix read while it is being written')
            if s.solved == 'init': return s.init_at(a.args[0], j, a.args[3])
            return s.solved(j, a.args[3], kk)
        if s.solved == 'init' or s.solved is None: 
            if s.solved is None: return TM.unk('container read while it is being written')
            return s.init_at(a.args[0], j)
        return s.solved(a.args[0], j, kk)
    def init_at(s, name, j, i=None):
        if s.kind == 'mat':
            v = s.init.at(j, i); return v if isinstance(v, T) else TM.unk('structured element')
        if s.kind == 'seq':
            v = s.init.at(j)
        else:
            v = s.init.mem(j) if name.endswith('m') else s.init.get(j)
        return v if isinstance(v, T) else TM.unk('structured element')
    def finish(s, I_, st, k, n):
        r = Ref(s.cell, s.path)
        if s.kind == 'scalar': v = s.solved(n)
        elif s.kind == 'opq': v = Opq(s.solved(n), s.init.tag)
        elif s.kind == 'stream': v = Stream(s.init.n, s.init.pull, s.init.ordered, s.init.guarded, s.solved(n), s.init.incr)
        elif s.kind in ('seq', 'map', 'mat'):
            if s.solved == 'init':
                v = s.init
                if s.path: I_.write(st, r, v)
                else: st.cells[s.cell] = v
                return
            v = s.final(n)
        elif isinstance(s.kind, Enum): v = s.kind.close(s, n)
        elif s.kind == 'part': return
        else:
            v = s.final(n) if getattr(s, 'final', None) else Unk('loop-carried %s' % type(s.init).__name__)
        if s.path: I_.write(st, r, v)
        else: st.cells[s.cell] = v

def solve_slots(I_, slots, k, ordered):
    curnames = {}
    for s in slots:
        if s.cur: curnames[s.cur] = s; curnames[s.cur + 'm'] = s; curnames[s.cur + 'v'] = s
    accs = {s.acc: s for s in slots if s.acc is not None}
    def deps(t):
        out = set()
        for v in t.fv:
            if v in accs: out.add(accs[v])
        occurs(t, lambda x: x.op == 'app' and x.args[0] in curnames and (out.add(curnames[x.args[0]]) or False))
        return out
    pending = list(slots)
    # containers: collect per-point steps
    for s in pending:
        if s.kind == 'seq': prep_seq(I_, s, k)
        elif s.kind == 'map': prep_map(I_, s, k)
        elif s.kind == 'other' or isinstance(s.kind, Enum): s.terms = []
        elif s.kind == 'mat': prep_mat(I_, s, k)
        else: s.terms = [s.term_after()]
    early_mat(slots, k)
    progress = True
    while pending and progress:
        progress = False
        for s in list(pending):
            d = set()
            for t in s.terms: d |= deps(t)
            d.discard(s)
            if all(x.solved is not None for x in d):
                others = [x for x in d]
                solve_one(I_, s, others, k, ordered)
                pending.remove(s); progress = True
        if not progress and pending and diagonal(pending, k, deps): progress = True
        if not progress and pending:
            sc = [s for s in pending if s.acc is not None]
            if sc and all((deps(s.terms[0]) - {x for x in slots if x.solved is not None}) <= set(sc) for s in sc):
                group = sc
                others = [x for x in slots if x.solved is not None]
                steps = [resolve(s.terms[0], others, k, k) for s in group]
                inits = [s.term_init() for s in group]
                if not any(has_unk(t) for t in steps + inits):
                    for i, s in enumerate(group):
                        s.solved = (lambda i: lambda kk: mkfold(kk, k, [g.acc for g in group], inits, steps, i))(i)
                else:
                    u = [t for t in steps + inits if has_unk(t)][0]
                    for s in group: s.solved = lambda kk: TM.unk(sorted(unk_reasons(u))[0])
                for s in group: pending.remove(s)
                progress = True
            else:
                s = pending.pop(0)
                fail_slot(s, 'mutually dependent loop state')
                progress = True
    return True
def diagonal(pending, k, deps):
    "vectors that every iteration reads and writes at its own index only: what an iteration reads is what was there before the loop"
    G = [s for s in pending if s.kind == 'seq' and not s.bad and s.writes and s.whole is None and s.pushed is None and s.esort and all(isinstance(v, T) for _, _, v in s.writes)]
    if len(G) < 2: return False
    idx = G[0].writes[0][1]; jj = bv('i', 'j')
    if k not in idx.fv or idx is not k and solve(idx, jj, k) is None: return False
    if any(i is not idx for s in G for _, i, _ in s.writes): return False
    names = {s.cur: s for s in G}
    bad = []
    def f(a):
        g = names.get(a.args[0])
        if g is None: return None
        if a.args[2] is not idx: bad.append(a); return None
        v = g.init.at(idx)
        if not isinstance(v, T): bad.append(a); return None
        return v
    new = [[(rewrite(g, f), i, rewrite(v, f)) for g, i, v in s.writes] for s in G]
    if bad: return False
    for s, w in zip(G, new):
        s.writes = w; s.terms = [t for x in w for t in x]
    return any(not (deps_left & set(pending)) for deps_left in [set().union(*[deps(t) for t in s.terms]) - {s} for s in G])
def fail_slot(s, why_):
    if s.acc is not None: s.solved = lambda kk: TM.unk(why_)
    else:
        s.solved = lambda name, j, kk: TM.unk(why_)
        s.final = lambda n: Unk(why_)

def solve_one(I_, s, others, k, ordered):
    if s.kind == 'seq': return solve_seq(I_, s, others, k, ordered)
    if s.kind == 'map': return solve_map(I_, s, others, k, ordered)
    if s.kind == 'mat': return solve_mat(I_, s, others, k, ordered)
    if isinstance(s.kind, Enum): s.solved = 'parts'; return
    if s.kind == 'other':
        a = s.after
        if a is None: s.solved = 'init'; s.final = lambda n: s.init; return
        # overwritten without reading the previous value?
        s.solved = 'other'
        s.final = lambda n: Unk('loop-carried %s' % type(s.init).__name__)
        return
    t = resolve(s.terms[0], others, k, k)
    init = s.term_init()
    s.solved = recurrence(s.acc, init, t, k, ordered)

def recurrence(x, init, t, k, ordered=True):
    "closed form of  x_0 = init, x_{k+1} = t(x_k, k):  kk -> x_kk"
    if t.sort == 'u' or init.sort == 'u' or has_unk(t) or has_unk(init):
        w = sorted(unk_reasons(t) | unk_reasons(init))[0]
        return lambda kk: TM.unk(w)
    if t is x: return lambda kk: init
    if t.sort == 'r' and init.sort == 'i': init = i2r(init)
    if x not in t.fv:
        if not ordered and k in t.fv: return lambda kk: TM.unk('last value of an unordered iteration')
        return lambda kk: ite(lt(I(0), kk), subst(t, {k: sub(kk, I(1))}), init)
    z = const(0, x.sort) if x.sort in 'ir' else None
    sp = single_update(t, x, k)
    if sp is not None:
        j, g, e = sp
        return lambda kk: ite(and_(le(I(0), j), lt(j, kk), subst(g, {k: j, x: init})), subst(e, {k: j, x: init}), init)
    if x.sort in 'ir':
        af = affine(t, x)
        if af is not None and af[0] is const(1, x.sort):
            return lambda kk: add(init, sum_(kk, *fresh_body(k, af[1])))
        m = find_minmax(t, x)
        if m is not None:
            op, g, e = m
            return lambda kk: (maxr if op == 'max' else minr)(kk, *(fresh_bodies(k, [g, e])), init) if init.op != 'unk' else init
        u, gd = t, TRUE
        while u.op == 'ite' and x not in u.args[0].fv and x in u.args[1:]:
            gd, u = (and_(gd, u.args[0]), u.args[1]) if u.args[2] is x else (and_(gd, not_(u.args[0])), u.args[2])
        if u.op in ('max', 'min') and len(u.args) == 2:      # clamped running maximum: only the last clamp counts
            for c, b in (u.args, u.args[::-1]):
                m = find_minmax(b, x) if not {x, k} & set(c.fv) else None
                if m and m[0] != u.op and m[1] is TRUE:
                    return lambda kk: ite(any_(kk, *fresh_body(k, gd)), (min2 if u.op == 'min' else max2)(c, (maxr if m[0] == 'max' else minr)(kk, *fresh_bodies(k, [gd, m[2]]), init)), init)
        if af is not None and af[1] is z:
            return lambda kk: mul(init, prod_(kk, *fresh_body(k, af[0])))
    if x.sort == 'b':
        e0, e1 = subst(t, {x: FALSE}), subst(t, {x: TRUE})
        if e1 is TRUE: return lambda kk: or_(init, any_(kk, *fresh_body(k, e0)))
        if e0 is FALSE: return lambda kk: and_(init, not_(any_(kk, *fresh_body(k, not_(e1)))))
    if not ordered: return lambda kk: TM.unk('order-dependent fold over an unordered collection')
    return lambda kk: mkfold(kk, k, [x], [init], [t], 0)
def fresh_body(k, e):
    q = bv('i', 'k')
    return q, subst(e, {k: q})
def fresh_bodies(k, es):
    q = bv('i', 'k')
    return [q] + [subst(e, {k: q}) for e in es]
def affine(t, x):
    "(a, b) with t = a * x + b and x in neither, read off the term (never by sampling: an equality that holds rarely would be missed)"
    one, zero = const(1, t.sort), const(0, t.sort)
    if x not in t.fv: return zero, t
    if t is x: return one, zero
    if t.op == 'i2r' and x.sort == 'i':
        r = affine(t.args[0], x)
        return r and (i2r(r[0]), i2r(r[1]))
    if t.op == 'add':
        a, b = zero, zero
        for y in t.args:
            r = affine(y, x)
            if r is None: return None
            a, b = add(a, r[0]), add(b, r[1])
        return a, b
    if t.op == 'mul':
        w = [y for y in t.args if x in y.fv]
        if len(w) != 1: return None
        r = affine(w[0], x)
        if r is None: return None
        o = mul(*[y for y in t.args if y is not w[0]])
        return mul(o, r[0]), mul(o, r[1])
    if t.op == 'div' and t.sort == 'r' and x not in t.args[1].fv:
        r = affine(t.args[0], x)
        return r and (div(r[0], t.args[1]), div(r[1], t.args[1]))
    if t.op == 'ite' and x not in t.args[0].fv:
        p, q = affine(t.args[1], x), affine(t.args[2], x)
        return None if p is None or q is None else (ite(t.args[0], p[0], q[0]), ite(t.args[0], p[1], q[1]))
    return None
def single_update(t, x, k):
    "t = if (k == j and g) e else x  with j independent of k"
    cs = []
    while t.op == 'ite':
        c, a, b = t.args
        if b is x: t = a
        elif a is x: c = not_(c); t = b
        else: break
        cs += list(c.args) if c.op == 'and' else [c]
    for q in cs:
        if q.op == 'eq':
            j = solve(q.args[0], q.args[1], k)
            if j is not None and x not in j.fv: return j, and_(*[y for y in cs if y is not q]), t
    return None
def find_minmax(t, x):
    if t.op in ('max', 'min'):
        a, b = t.args
        if a is x and x not in b.fv: return t.op, TRUE, b
        if b is x and x not in a.fv: return t.op, TRUE, a
        # max(max(x, a), b)
    if t.op == 'ite':
        c, a, b = t.args
        if x not in c.fv:
            if b is x:
                m = find_minmax(a, x)
                if m: return m[0], and_(c, m[1]), m[2]
            if a is x:
                m = find_minmax(b, x)
                if m: return m[0], and_(not_(c), m[1]), m[2]
    return None

def prep_seq(I_, s, k):
    a = s.after
    s.terms = []
    s.writes = None; s.pushed = None; s.whole = None
    if not isinstance(a, Seq) or a.base is not s.new.base:
        # rewritten as a whole, at the same length: every element is a function of the old ones
        s.jj, s.x = bv('i', 'j'), bv(s.esort or 'r', 'acc')
        t = same_length_at(a, s.init.n, s.jj) if s.esort and s.init.guard is None and not s.init.pushes else None
        if t is None: s.bad = 'container replaced in a loop'; return
        s.bad = None; s.whole = t; s.terms = [t]
        return
    s.bad = None
    if a.pushes:
        if a.writes: s.bad = 'push and write in one loop'; return
        s.pushed = a.pushes
        for g, v in a.pushes:
            s.terms.append(g)
            if isinstance(v, T): s.terms.append(v)
        return
    s.writes = a.writes
    for g, i, v in a.writes:
        s.terms += [g, i] + ([v] if isinstance(v, T) else [])
def same_length_at(a, n, j):
    "the element at j of a container that certainly has n elements"
    if isinstance(a, VIte):
        x, y = same_length_at(a.a, n, j), same_length_at(a.b, n, j)
        return None if x is None or y is None else ite(a.c, x, y)
    if not isinstance(a, Seq) or a.n is not n or a.guard is not None or a.pushes: return None
    t = a.at(j)
    return t if isinstance(t, T) else None
def self_sub(t, s, idx, x, suffix=''):
    "the element being written, read in the same iteration, is the accumulated value"
    def f(a):
        if a.args[0] == s.cur + suffix and a.args[2] is idx: return x
        return None
    return rewrite(t, f)
def solve_seq(I_, s, others, k, ordered):
    init = s.init
    if s.bad: return fail_slot(s, s.bad)
    if s.whole is not None:
        t = resolve(self_sub(s.terms[0], s, s.jj, s.x), others, k, k)
        if occurs(t, lambda q: q.op == 'app' and q.args[0] == s.cur): return fail_slot(s, 'loop reads other elements of the container it writes')
        def closed(j, kk):
            i0 = init.at(j)
            return recurrence(s.x, i0, subst(t, {s.jj: j}), k, ordered)(kk) if isinstance(i0, T) else TM.unk('element')
        s.solved = lambda name, j, kk: closed(j, kk)
        s.final = lambda n: Seq(init.n, lambda j: closed(j, n), ordered=init.ordered, lay=init.lay)
        return
    if s.pushed is not None:
        ps = [(resolve(g, others, k, k), vmap(v, lambda t: resolve(t, others, k, k))) for g, v in s.pushed]
        n0 = init.n
        m = len(ps)
        s.solved = lambda name, j, kk: TM.unk('read while pushing')
        if all(g is TRUE for g, v in ps):
            def final(n):
                def at(j):
                    q = sub(j, n0)
                    r = None
                    for w, (g, v) in enumerate(ps):
                        kk = q if m == 1 else idiv('tdiv', q, I(m))
                        x = vsubst(v, {k: kk})
                        r = x if r is None else vite(eq(idiv('trem', q, I(m)), I(w)), x, r)
                    return vite(lt(j, n0), init.at(j), r) if n0 is not I(0) else r
                return Seq(add(n0, mul(I(m), n)), at, ordered=ordered)
            s.final = final
        elif m == 1 and n0 is I(0):
            g, v = ps[0]
            s.final = lambda n: Seq(n, lambda j: vsubst(v, {k: j}), guard=lambda j: subst(g, {k: j}), ordered=ordered)
        else: s.final = lambda n: Unk('conditional push')
        return
    if s.esort is None:
        # structured elements: only plain, single-index overwrites
        if len(s.writes) == 1:
            g, i, v = s.writes[0]
            g, i = resolve(g, others, k, k), resolve(i, others, k, k)
            v = vmap(v, lambda t: resolve(t, others, k, k))
            def final(n):
                def at(j):
                    j0 = solve(i, j, k)
                    if j0 is None: return Unk('structured scatter')
                    return vite(and_(le(I(0), j0), lt(j0, n), subst(g, {k: j0})), vsubst(v, {k: j0}), init.at(j))
                return Seq(init.n, at, lay=init.lay)
            s.solved = lambda name, j, kk: TM.unk('structured element'); s.final = final
            return
        return fail_slot(s, 'structured elements written in a loop')
    x = bv(s.esort, 'acc'); jj = bv('i', 'j')
    t = x
    for g, i, v in s.writes:
        if not isinstance(v, T): return fail_slot(s, why(v) if is_unk(v) else 'element kind')
        # (a read after an earlier write of the iteration already carries the value that write left)
        lits = TM.literals(g)
        if lits: i, v = TM.replace(i, lits), TM.replace(v, lits)
        gi, ii, vi = g, i, v
        val = self_sub(v, s, i, x); gg = self_sub(g, s, i, x)
        val, gg, ii = resolve(val, others, k, k), resolve(gg, others, k, k), resolve(ii, others, k, k)
        if occurs(val, lambda q: q.op == 'app' and q.args[0] == s.cur) or occurs(ii, lambda q: q.op == 'app' and q.args[0] == s.cur) or occurs(gg, lambda q: q.op == 'app' and q.args[0] == s.cur):
            return fail_slot(s, 'loop reads other elements of the container it writes')
        t = ite(and_(gg, eq(jj, ii)), val, t)
    k0 = one_iteration([resolve(i, others, k, k) for g, i, v in s.writes], jj, k)
    def closed(j, kk):
        i0 = init.at(j)
        if not isinstance(i0, T): return TM.unk('element')
        tj = subst(t, {jj: j})
        if k0 is not None:
            kj = subst(k0, {jj: j})
            return ite(and_(le(I(0), kj), lt(kj, kk)), subst(tj, {k: kj, x: i0}), i0)
        return recurrence(x, i0, tj, k, ordered)(kk)
    s.solved = lambda name, j, kk: closed(j, kk)
    s.final = lambda n: Seq(init.n, lambda j: closed(j, n), ordered=init.ordered, lay=init.lay)
def prep_map(I_, s, k):
    a = s.after
    s.terms = []; s.bad = None
    if not isinstance(a, MapV) or a.mem0 is not s.new.mem0: s.bad = 'map replaced in a loop'; return
    s.mops = a.ops; s.abound = a.bound
    for g, key, nm, v in a.ops: s.terms += [g, key, nm] + ([v] if isinstance(v, T) else [])
    if a.bound is not None: s.terms.append(a.bound)
def whole_map_reads(s, k, rs):
    "whether the map is empty, and how many entries it has, at the start of an iteration of a loop that only inserts"
    found = []
    def look(z):
        if z.op == 'any' and z.args[2].op == 'app' and z.args[2].args[0] == s.cur + 'm' and z.args[2].args[2] is z.args[1]: found.append(z)
        if z.op == 'sum' and z.args[2].op == 'ite' and z.args[2].args[0].op == 'app' and z.args[2].args[0].args[0] == s.cur + 'm' and z.args[2].args[0].args[2] is z.args[1] and z.args[2].args[1] is I(1) and z.args[2].args[2] is I(0): found.append(z)
        return False
    for g, key, nm, v in s.mops:
        for q in (g, key, nm, v):
            if isinstance(q, T): occurs(q, look)
    cur = lambda t: occurs(t, lambda z: z.op == 'app' and z.args[0] in (s.cur + 'm', s.cur + 'v'))
    out = {}
    if not found or any(nm is not TRUE for _, _, nm, _ in s.mops): return out
    gs = [g for g, _, _, _ in s.mops]
    if any(cur(g) for g in gs) or s.init.bound is None: return out
    q = bv('i', 'k'); p = bv('i', 'k')
    for z in found:
        if z.op == 'any': out[z] = or_(TM.any_(s.init.bound, p, s.init.mem(p)), TM.any_(k, q, or_(*[subst(rs(g), {k: q}) for g in gs])))
    keys = [TM.replace(key, out) for _, key, _, _ in s.mops]
    if len(gs) == 1 and not any(cur(x) for x in keys):
        g, key = rs(gs[0]), rs(keys[0]); r = bv('i', 'k')
        jj = subst(key, {k: q}); new = and_(subst(g, {k: q}), not_(s.init.mem(jj)), not_(TM.any_(q, r, and_(subst(g, {k: r}), eq(subst(key, {k: r}), jj)))))
        for z in found:
            if z.op == 'sum': out[z] = add(TM.sum_(s.init.bound, p, ite(s.init.mem(p), I(1), I(0))), TM.sum_(k, q, ite(new, I(1), I(0))))
    return out
def solve_map(I_, s, others, k, ordered):
    init = s.init
    if s.bad: return fail_slot(s, s.bad)
    m = bv('b', 'acc'); x = bv(s.esort or 'r', 'acc'); jj = bv('i', 'j')
    tm, tx = m, x
    unitv = s.esort is None
    whole = whole_map_reads(s, k, lambda t: resolve(t, others, k, k))
    for g, key, nm, v in s.mops:
        if not isinstance(v, T) and not unitv: return fail_slot(s, 'map value kind')
        if whole: g, key, nm, v = [TM.replace(q, whole) if isinstance(q, T) else q for q in (g, key, nm, v)]
        def sub2(t):
            t = self_sub(t, s, key, m, 'm')
            t = self_sub(t, s, key, x, 'v')
            return resolve(t, others, k, k)
        gg, nmm, kk_ = sub2(g), sub2(nm), resolve(key, others, k, k)
        vv = sub2(v) if isinstance(v, T) else x
        for q in (gg, nmm, kk_, vv):
            if occurs(q, lambda z: z.op == 'app' and z.args[0] in (s.cur + 'm', s.cur + 'v')): return fail_slot(s, 'loop reads other entries of the map it writes')
        c = and_(gg, eq(jj, kk_))
        tm, tx = ite(c, nmm, tm), ite(c, vv, tx)
    keys = [resolve(TM.replace(key, whole) if whole else key, others, k, k) for g, key, nm, v in s.mops]
    k0 = one_iteration(keys, jj, k)
    def closed(which, j, kk):
        m0 = init.mem(j); x0 = init.get(j)
        if unitv: x0 = const(0, 'r')
        if not isinstance(x0, T): return TM.unk('map element')
        a, b = subst(tm, {jj: j}), subst(tx, {jj: j})
        if k0 is not None:
            kj = subst(k0, {jj: j}); mm = {k: kj, m: m0, x: x0}
            return ite(and_(le(I(0), kj), lt(kj, kk)), subst(a if which == 'm' else b, mm), m0 if which == 'm' else x0)
        # joint recurrence; single-point and independent cases first
        sa, sb = single_update2(a, m, k), single_update2(b, x, k)
        if sa is not None and sb is not None:
            def one(sp, init_):
                if sp == 'same': return init_
                jx, g, e = sp
                mm = {k: jx, m: m0, x: x0}
                return ite(and_(le(I(0), jx), lt(jx, kk), subst(g, mm)), subst(e, mm), init_)
            return one(sa, m0) if which == 'm' else one(sb, x0)
        if which == 'm' and x not in a.fv: return recurrence(m, m0, a, k, ordered or a_orderless(a, m))(kk)
        if which == 'v' and m not in b.fv:
            if x in b.fv and m not in b.fv: return recurrence(x, x0, b, k, True)(kk)
        return mkfold(kk, k, [m, x], [m0, x0], [a, b], 0 if which == 'm' else 1)
    s.solved = lambda name, j, kk: closed('m' if name.endswith('m') else 'v', j, kk)
    def bound(n):
        if s.abound is init.bound or init.bound is None: return init.bound
        b = init.bound
        for key, (g, _, nm, _) in zip(keys, s.mops):
            if nm is FALSE: continue
            u = upper_bound(key, k, n)
            if u is None:
                gg = resolve(self_sub(g, s, key, TRUE, 'm'), others, k, k)
                if occurs(gg, lambda z: z.op == 'app' and str(z.args[0]).startswith('cur#')) or m in gg.fv or x in gg.fv: gg = TRUE
                u = maxr(n, *fresh_bodies(k, [gg, add(key, I(1))]), I(0))
            b = max2(b, u)
        return b
    s.final = lambda n: MapV(bound(n), lambda j: closed('m', j, n), (lambda j: closed('v', j, n)) if not unitv else (lambda j: UNIT), kind=init.kind)
def a_orderless(a, m): return True
def one_iteration(keys, jj, k):
    "the only iteration that can touch entry jj, if there is one"
    k0 = None
    for key in keys:
        j = solve(key, jj, k)
        if j is None or (k0 is not None and j is not k0): return None
        k0 = j
    return k0
def upper_bound(key, k, n):
    "exclusive bound of an index term over k < n"
    if key is k: return n
    j0 = bv('i', 'j')
    if key.op == 'add' and k in key.args: return subst(key, {k: n})
    import lib
    u = lib.upper(key)
    if u is not None and k not in u.fv: return u
    return None
def single_update2(t, x, k):
    if t is x: return 'same'
    return single_update(t, x, k)
def prep_mat(I_, s, k):
    "one term for the new value of a symbolic entry, in the old value x of that entry and the current entries"
    s.terms = []; s.bad = None
    a = s.after
    if not isinstance(a, Mat) or a.nr is not s.init.nr or a.nc is not s.init.nc: s.bad = 'matrix replaced in a loop'; return
    s.ii, s.jj, s.x = bv('i', 'i'), bv('i', 'j'), bv('r', 'acc')
    t = a.at(s.ii, s.jj)
    if not isinstance(t, T): s.bad = why(t) if is_unk(t) else 'matrix element kind'; return
    s.terms = [t]
def mat_key(s, k, rs=lambda t: t):
    """(iteration that writes entry (ii, jj), other condition, value), if only one iteration can"""
    def own(a):
        if a.args[0] == s.cur and a.args[2] is s.ii and a.args[3] is s.jj: return s.x
        return None
    t = rs(rewrite(s.terms[0], own))
    return t, single_update(t, s.x, k)
def early_mat(slots, k):
    "reads of entries which no earlier iteration wrote: they hold the initial value"
    for s in slots:
        if s.kind != 'mat' or s.bad: continue
        t, sp = mat_key(s, k)
        if sp is None: continue
        kj = sp[0]
        def f(a):
            if a.args[0] == s.cur and not (a.args[2] is s.ii and a.args[3] is s.jj) and subst(kj, {s.ii: a.args[2], s.jj: a.args[3]}) is k: return s.init_at(s.cur, a.args[2], a.args[3])
            return None
        for o in slots:
            if getattr(o, 'terms', None): o.terms = [rewrite(q, f) for q in o.terms]
def solve_mat(I_, s, others, k, ordered):
    init = s.init
    if s.bad: return fail_slot(s, s.bad)
    t, sp = mat_key(s, k, lambda t: resolve(t, others, k, k))
    if occurs(t, lambda q: q.op == 'app' and q.args[0] == s.cur): return fail_slot(s, 'loop reads other entries of the matrix it writes')
    def closed(i, j, kk):
        i0 = init.at(i, j)
        if not isinstance(i0, T): return TM.unk('element')
        m = {s.ii: i, s.jj: j}
        if sp is not None:
            kj, g, e = [subst(z, m) for z in sp]
            mm = {k: kj, s.x: i0}
            return ite(and_(le(I(0), kj), lt(kj, kk), subst(g, mm)), subst(e, mm), i0)
        return recurrence(s.x, i0, subst(t, m), k, ordered)(kk)
    s.solved = lambda i, j, kk: closed(i, j, kk)
    s.final = lambda n: Mat(init.nr, init.nc, lambda i, j: closed(i, j, n))

class Enum:
    "a two-variant value (Result, Option) carried round a loop: its tag and its payloads"
    def __init__(s, sample): s.sample = sample
    def leaves(s, v):
        if isinstance(v, VIte): return s.leaves(v.a) + s.leaves(v.b)
        return [v]
    def shape(s):
        "variant index -> (name, payload kind), or None"
        out = {}
        path = None
        for v in s.sample:
            for x in s.leaves(v):
                if x is BOT: continue
                if not isinstance(x, Adt) or x.path not in (RESULT, OPTION) or len(x.fields) > 1: return None
                path = x.path
                kd = 'none'
                if x.fields:
                    y = x.fields[0]
                    kd = ('t', y.sort) if isinstance(y, T) and y.sort != 'u' else ('o', y.tag) if isinstance(y, Opq) else 'unit' if isinstance(y, Tup) and not y.items else None
                    if kd is None: return None
                if x.var in out and out[x.var][1] != kd: return None
                out[x.var] = (x.vname, kd)
        return path, out
    def open(s, slot):
        path, sh = s.shape()
        s.path = path; s.sh = sh
        def tagt(v):
            if isinstance(v, VIte): return ite(v.c, tagt(v.a), tagt(v.b))
            if isinstance(v, Adt): return B(v.var == 1)
            return TM.unk('loop value of unknown variant: %s' % (why(v) if is_unk(v) else type(v).__name__))
        def payload(var, sort):
            def f(v):
                if isinstance(v, VIte):
                    a, b = f(v.a), f(v.b)
                    return b if a is None else a if b is None else ite(v.c, a, b)
                if isinstance(v, Adt):
                    if v.var != var: return None
                    y = v.fields[0]
                    return y if isinstance(y, T) else y.t if isinstance(y, Opq) else TM.unk('payload')
                return TM.unk('loop value of unknown variant')
            return f
        s.tag = Part(slot, 'b', tagt); slot.parts.append(s.tag)
        s.pay = {}
        for var, (nm, kd) in sorted(sh.items()):
            if kd in ('none', 'unit'): continue
            so = kd[1] if kd[0] == 't' else 'o'
            s.pay[var] = Part(slot, so, payload(var, so)); slot.parts.append(s.pay[var])
        return s.build(lambda p: p.acc)
    def build(s, val):
        def mk_(var):
            if var not in s.sh: return BOT
            nm, kd = s.sh[var]
            if kd == 'none': fs = ()
            elif kd == 'unit': fs = (UNIT,)
            else: fs = (val(s.pay[var]) if kd[0] == 't' else Opq(val(s.pay[var]), kd[1]),)
            return Adt(s.path, var, nm, fs)
        t = val(s.tag)
        if t.sort == 'u': return Unk(why(t))
        return vite(t, mk_(1), mk_(0))
    def close(s, slot, n): return s.build(lambda p: p.solved(n))
class Part:
    "one scalar component of an enum slot"
    def __init__(s, slot, sort, f):
        s.slot, s.f = slot, f
        s.kind = 'part'; s.cur = None; s.solved = None; s.acc = bv(sort, 'acc'); s.cell = slot.cell; s.path = slot.path
        v = f(slot.init)
        s.init = v if isinstance(v, T) else app('undef:%s' % sort, [], sort)
    def term_init(s): return s.init
    def term_after(s):
        v = s.f(s.slot.after) if s.slot.after is not None else s.acc
        return v if isinstance(v, T) else s.acc
    def prefix_scalars(s, kk): return [(s.acc, s.solved(kk) if callable(s.solved) else TM.unk('unsolved loop variable'))]
    def finish(s, *a): pass
    def freeze(s, k): s.solved = lambda kk: s.init

class MatUpd(Mat):
    "matrix with one column replaced"
    def __init__(s, base, col, seq):
        s.base, s.col, s.seq = base, col, seq
        s.nr, s.nc = base.nr, base.nc
    def at(s, i, j): return vite(eq(j, s.col), s.seq.at(i), s.base.at(i, j))

def array(vs):
    def at(j):
        if not vs: return BOT
        if j.op == 'const': return vs[int(j.args[0])] if 0 <= int(j.args[0]) < len(vs) else BOT
        r = vs[-1]
        for i in range(len(vs) - 2, -1, -1): r = vite(eq(j, I(i)), vs[i], r)
        return r
    return Seq(I(len(vs)), at)
