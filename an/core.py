"""Obligations: what is asked of the analysed source, how the answer is recorded."""
import json, sys
sys.setrecursionlimit(20000)
from absint import *
import lib
from terms import *
import terms as TM

class Missing(Exception): pass

class Ob:
    def __init__(s, rule, fn, status, detail, site=''):
        s.rule, s.fn, s.status, s.detail, s.site = rule, fn, status, detail, site
    def __repr__(s): return '%-9s %s [%s] %s' % (s.status, s.rule, s.fn, s.detail)

class Run:
    "outcome of analysing one call"
    def __init__(s, I_, st, v, args, f): s.I, s.st, s.raw, s.args, s.f = I_, st, v, args, f
    @property
    def v(s): return s.I.deref(s.st, s.raw)
    def arg(s, i): return s.I.deref(s.st, s.args[i])
    @property
    def panics(s): return s.I.panics
    @property
    def dead(s): return s.st.dead

class Session:
    def __init__(s, dump, tier='quick'):
        s.D = dump; s.T = dump['types']; s.obs = []; s.analysed = set(); s.sites = 0; s.tier = tier
        s.lastlookup = ''; s.opaque = {}
    # -------------------------------------------------------------- anchors
    def adt(s, last):
        c = [a for a in s.D['adts'] if a['path'].split('::')[-1] == last]
        if not c: raise Missing('type %s' % last)
        return sorted(c, key=lambda a: len(a['path']))[0]
    def adtpath(s, last): return s.adt(last)['path']
    def fns(s, adt=None, name=None, trait=None, pred=None, self_=None):
        out = []
        for f in s.D['fns']:
            if f.get('kind') not in ('Fn', 'AssocFn') or 'body' not in f: continue
            if name is not None and f.get('name') != name: continue
            tr = f.get('trait')
            if trait is None and adt is not None and (tr or f.get('intrait')): continue
            if trait is not None and (tr or '').split('::')[-1] != trait: continue
            if adt is not None or self_ is not None:
                if 'implself' not in f: continue
                t = s.T[f['implself']]
                if adt is not None and (t.get('path') or '').split('::')[-1] != adt: continue
                if self_ is not None and not self_(t['s']): continue
            if pred is not None and not pred(f): continue
            out.append(f)
        return out
    def fn(s, adt=None, name=None, trait=None, pred=None, self_=None):
        c = s.fns(adt, name, trait, pred, self_)
        if not c and trait: c = [f for f in s.D['fns'] if (f.get('intrait') or '').split('::')[-1] == trait and f.get('name') == name and 'body' in f and not f.get('trait')]
        if not c: raise Missing('%s%s%s' % (adt + '::' if adt else '', name, ' (%s)' % trait if trait else ''))
        return c[0]
    def targ(s, f, i):
        "i-th trait argument (0 is Self) of an impl method, as written by the compiler"
        a = f.get('traitargs') or []
        return s.T[a[i]]['s'] if i < len(a) and isinstance(a[i], int) else ''
    # -------------------------------------------------------------- runs
    def interp(s):
        I_ = Interp(s.D)
        I_.session = s
        I_.opaque = dict(s.opaque); I_.keep_checks = getattr(s, 'keep_checks', False)
        return I_
    def isref(s, f, i):
        ins = f.get('inputs') or []
        return i < len(ins) and s.T[ins[i]]['s'].startswith('&')
    def run(s, f, args, I_=None, st=None, pc=()):
        I_ = I_ or s.interp(); st = st or State()
        st.pc = tuple(pc)
        av = []
        for i, a in enumerate(args):
            if s.isref(f, i) and not isinstance(a, (Ref, View)) and not (isinstance(a, VIte) and isinstance(a.a, Ref)): a = Ref(st.new(a))
            av.append(a)
        I_.panics = []
        try: v = I_.call_fn(st, f['key'], av)
        except Giveup as x: v = Unk(str(x))
        except RecursionError: v = Unk('recursion limit')
        s.analysed |= I_.analysed; s.sites += I_.sites
        return Run(I_, st, v, av, f)
    # -------------------------------------------------------------- obligations
    def label(s, f): return f['path'].replace('crate::', '') if isinstance(f, dict) else str(f)
    def site(s, f): return f.get('sp', '') if isinstance(f, dict) else ''
    def put(s, rule, f, status, detail=''):
        o = Ob(rule, s.label(f), status, detail, s.site(f)); s.obs.append(o)
        return o
    def eq(s, rule, f, pairs, assume=TRUE, run=None, alts=None, dead_ok=False, exact=True):
        """assume => all pairs equal, and the run neither panics nor diverges.  alts: other acceptable
        right-hand sides (lists of pairs)."""
        cands = [pairs] + (alts or [])
        best = None
        extra = []
        if run is not None:
            if run.dead and not dead_ok: return s.put(rule, f, 'violated', 'never returns normally: %s' % '; '.join('%s at %s' % (w, si) for c, si, w in run.panics)[:200])
            extra = [(c, FALSE) for c, si, w in run.panics]
        order = ['proved', 'agree', 'undecided', 'violated']
        for ps in cands:
            v = compare(list(ps) + [], assume, exact)
            if best is None or order.index(v.status) < order.index(best.status): best = v
            if best.status == 'proved': break
        if extra:
            for c, si, w in run.panics:
                v = compare([(c, FALSE)], assume)
                if v.status == 'violated': return s.put(rule, f, 'violated', 'may abort: %s at %s' % (w, si))
                if order.index(v.status) > order.index(best.status): best = v
        return s.put(rule, f, best.status, best.detail)
    def holds(s, rule, f, cond, assume=TRUE, run=None): return s.eq(rule, f, [(cond, TRUE)], assume, run)
    def guard(s, rule, fn):
        "run one spec section; a missing public anchor is a violation, anything unexpected is undecided"
        try: fn()
        except Missing as x: s.put(rule, str(x), 'violated', 'public item not found: %s' % x)
        except Giveup as x: s.put(rule, rule, 'undecided', str(x))
        except RecursionError: s.put(rule, rule, 'undecided', 'recursion limit')
        except Exception as x:
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            s.put(rule, rule, 'undecided', 'outside the decided fragment: %s: %s at %s:%d' % (type(x).__name__, x, tb.filename.split('/')[-1], tb.lineno))

# ------------------------------------------------------------------ observations
def gated(v, f):
    if isinstance(v, VIte): return vite(v.c, gated(v.a, f), gated(v.b, f))
    return f(v)
def ts(x, why_='value'):
    return x if isinstance(x, T) else TM.unk(x.why if isinstance(x, Unk) else 'diverges' if x is BOT else '%s: %s' % (why_, type(x).__name__))
def is_dense(v): return ts(gated(v, lambda x: B(x.vname == 'Dense') if isinstance(x, Adt) else TM.unk(getattr(x, 'why', 'features'))))
def is_sparse(v): return not_(is_dense(v))
def nfeat(I_, st, v):
    def g(x):
        if not isinstance(x, Adt): return TM.unk(getattr(x, 'why', 'features'))
        n, a = lib.feat_obs(I_, st, x)
        return n if n is not None else TM.unk(inner_why(I_, st, x))
    return ts(gated(v, g))
def inner_why(I_, st, x):
    y = I_.deref(st, x.fields[0])
    if isinstance(y, Unk): return y.why
    if isinstance(y, Adt):
        for z in y.fields:
            z = I_.deref(st, z)
            if isinstance(z, Unk): return z.why
    return 'feature vector of unknown shape'
def act(I_, st, v, j):
    def g(x):
        if not isinstance(x, Adt): return TM.unk(getattr(x, 'why', 'features'))
        n, a = lib.feat_obs(I_, st, x)
        return ts(I_.deref(st, a(j))) if n is not None else TM.unk(inner_why(I_, st, x))
    return ts(gated(v, g))
def member(I_, st, v, j):
    "index j is stored"
    def g(x):
        if not isinstance(x, Adt): return TM.unk(getattr(x, 'why', 'features'))
        y = I_.deref(st, x.fields[0])
        if x.vname == 'Dense': return lt(j, y.n) if isinstance(y, Seq) else TM.unk(inner_why(I_, st, x))
        m = I_.deref(st, y.get('activations')) if isinstance(y, Adt) else None
        return m.mem(j) if isinstance(m, MapV) else TM.unk(inner_why(I_, st, x))
    return ts(gated(v, g))
def seq_n(I_, st, v): 
    v = I_.deref(st, v)
    return ts(gated(v, lambda x: flat(x).n if isinstance(x, Seq) and flat(x).guard is None else TM.unk(getattr(x, 'why', 'sequence: %s' % type(x).__name__))))
def seq_at(I_, st, v, j):
    v = I_.deref(st, v)
    return ts(gated(v, lambda x: ts(I_.deref(st, flat(x).at(j))) if isinstance(x, Seq) and flat(x).guard is None else TM.unk(getattr(x, 'why', 'sequence: %s' % type(x).__name__))))
def okp(v): return ts(gated(v, lambda x: B(x.vname == 'Ok') if isinstance(x, Adt) and x.path == RESULT else TM.unk(getattr(x, 'why', 'result'))))
def pick(v, vname):
    def f(v):
        if isinstance(v, VIte):
            a, b = f(v.a), f(v.b)
            return b if a is BOT else a if b is BOT else vite(v.c, a, b)
        if isinstance(v, Adt): return v.fields[0] if v.vname == vname else BOT
        return v
    return f(v)
def okv(v): return pick(v, 'Ok')
def errv(v): return pick(v, 'Err')
def somep(v): return ts(gated(v, lambda x: B(x.vname == 'Some') if isinstance(x, Adt) and x.path == OPTION else TM.unk(getattr(x, 'why', 'option'))))
def somev(v): return pick(v, 'Some')

# ------------------------------------------------------------------ symbolic inputs
def oname(name): return sym(name, 'o')
def usize(name, dom='any', bound=None): return sym(name, 'i', dom, bound)
def real(name, dom='any'): return sym(name, 'r', dom)
def idx(name, n): return sym(name, 'i', 'any', n)
LAYOUT = [False]
def arr(v, name):
    "an array supplied by the caller: with LAYOUT set, it may lie in memory in any way"
    if LAYOUT[0] and isinstance(v, (Seq, Mat)): v.lay = Lay.any(oname('layout_' + name))
    return v
def vec(name, n=None, dom='act', sort='r'):
    n = n if n is not None else usize('n_' + name)
    nm = oname(name)
    return Seq(n, lambda j: app('dv', [nm, j], sort, dom))
def dense(S, name, n=None, dom='act'):
    return Adt(S.adtpath('Features'), 0, 'Dense', (arr(vec(name, n, dom), name),), ('0',))
def smap(name, n, dom='act', kind='map'):
    nm = oname(name)
    return MapV(n, lambda j: app('mem', [nm, j, n], 'b'), (lambda j: app('sv', [nm, j, n], 'r', dom)) if kind == 'map' else (lambda j: UNIT), kind=kind)
def sparse_act(S, name, n=None, dom='act', keys=None):
    n = n if n is not None else usize('n_' + name)
    a = S.adt('SparseActivations')
    fn = [x['name'] for x in a['variants'][0]['fields']]
    vals = {'dim': n, 'activations': smap(name, keys if keys is not None else n, dom)}
    return Adt(a['path'], 0, 'SparseActivations', [vals[x] for x in fn], fn)
def sparse(S, name, n=None, dom='act', keys=None):
    return Adt(S.adtpath('Features'), 1, 'Sparse', (sparse_act(S, name, n, dom, keys),), ('0',))
FORMS = (('dense', dense), ('sparse', sparse))
def ufn(name, sort='r', dom='any'):
    def f(I_, st, args): return app(name, [lib.digest(I_, st, a) for a in args], sort, dom)
    return UFn(name, f)
def F(name, *args, sort='r', dom='any'): return app(name, list(args), sort, dom)
def xact(name, form, n, j, dom='act'):
    nm = oname(name)
    if form == 'dense': return app('dv', [nm, j], 'r', dom)
    return ite(app('mem', [nm, j, n], 'b'), app('sv', [nm, j, n], 'r', dom), R(0))
