"""O01-O08: optimisers."""
from itertools import permutations, product
from core import *
from spec_features import mixed, weights, warray, N

LR, MO, B1, B2, SC = real('lr', 'lr'), real('mo', 'mo'), real('b1', 'beta'), real('b2', 'beta'), real('s')
TINY = [Fraction(1, 10 ** k) for k in (7, 8, 10, 6, 9, 5)]
NF = N('x')

class Spec:
    """one update rule: hyper-parameters in constructor order, state arrays with the domain of their
    contents, rule(old state at j, g at j, t = index of this step from 1, eps, total of squares) -> (new state, weight change)"""
    def __init__(s, nm, args, roles, rule, linear=True, eps=False): s.nm, s.args, s.roles, s.rule, s.linear, s.eps = nm, args, roles, rule, linear, eps
def r_sgd(st, g, t, eps, sq): return (), mul(LR, g)
def r_mom(st, g, t, eps, sq):
    v = add(mul(MO, st[0]), g)
    return (v,), mul(LR, v)
def r_nag(st, g, t, eps, sq):
    v = add(mul(MO, st[0]), g)
    return (v,), mul(LR, add(g, mul(MO, v)))
def root(x, eps): return eps(fn1('sqrt', x), x)
def r_ada(st, g, t, eps, sq):
    a = add(st[0], mul(g, g))
    return (a,), div(mul(LR, g), root(a, eps))
def corr(b, t): return sub(R(1), powi(b, t))
def r_adam(st, g, t, eps, sq):
    m = add(mul(B1, st[0]), mul(sub(R(1), B1), g)); v = add(mul(B2, st[1]), mul(sub(R(1), B2), g, g))
    return (m, v), div(mul(LR, div(m, corr(B1, t))), root(div(v, corr(B2, t)), eps))
def r_adamax(st, g, t, eps, sq):
    m = add(mul(B1, st[0]), mul(sub(R(1), B1), g)); u = max2(mul(B2, st[1]), fn1('abs', g))
    return (m, u), div(mul(LR, div(m, corr(B1, t))), eps(u, u))
def powi(b, t):
    if isinstance(t, int):
        return mul(*([b] * t)) if t else R(1)
    return ipow(b, t)
def r_isgd(st, g, t, eps, sq): return (), None
SPECS = [
    Spec('SGD', None, [], r_sgd),
    Spec('ISGD', None, [], None, linear=False),
    Spec('SGDMomentum', [MO, LR], ['any'], r_mom),
    Spec('NAG', [MO, LR], ['any'], r_nag),
    Spec('Adagrad', [LR], ['nn'], r_ada, eps=True),
    Spec('Adam', [LR, B1, B2], ['any', 'nn'], r_adam, eps=True),
    Spec('AdaMax', [LR, B1, B2], ['any', 'nn'], r_adamax, eps=True),
]
def spec(nm): return [s for s in SPECS if s.nm == nm][0]

class Opt:
    "an optimiser as its constructor leaves it, and what its fields are"
    def __init__(s, S, sp):
        s.S, s.sp = S, sp
        if sp.args is None:
            s.v = struct1(S, sp.nm, LR); s.ctor = S.adt(sp.nm)['path'].replace('crate::', ''); s.run = None
        else:
            f = S.fn(sp.nm, 'new'); r = S.run(f, [NF] + sp.args)
            s.v = r.v; s.ctor = f; s.run = r
            if isinstance(s.v, Adt): s.v = s.v.with_(0, s.v.fields[0])
        if not isinstance(s.v, Adt): raise Giveup('constructor of %s: %r' % (sp.nm, s.v))
        hyper = sp.args if sp.args is not None else [LR]
        s.arrays, s.hyper, s.other, s.derived = [], [], [], []
        for i, x in enumerate(s.v.fields):
            if isinstance(x, Seq): s.arrays.append(i)
            elif isinstance(x, T) and any(x is h for h in hyper): s.hyper.append(i)
            elif isinstance(x, T) and not has_unk(x) and x.fv == frozenset() and any(occurs(x, lambda z: z is h) for h in hyper): s.derived.append(i)
            elif isinstance(x, T) and not has_unk(x): s.other.append(i)
            else: raise Giveup('%s.%s: state of unknown kind: %r' % (sp.nm, s.v.fnames[i], x))
        if s.derived:
            # a field computed from the hyper-parameters: a setting when no step changes it, a state otherwise
            f, r = s.step(s.arbitrary(), weights('w', NF), XV(S, 'dense'), SC); v = r.arg(0)
            for i in list(s.derived):
                x = v.fields[i] if isinstance(v, Adt) else None
                if not (isinstance(x, T) and compare([(x, s.v.fields[i])]).status == 'proved'): s.derived.remove(i); s.other.append(i)
            s.hyper += s.derived
    def method(s, nm):
        a = s.S.fn(s.sp.nm, nm, 'Optimiser')
        return a
    def arbitrary(s, doms=None):
        "hyper-parameters as constructed, everything else arbitrary"
        v = s.v
        for k, i in enumerate(s.arrays):
            nm = oname('st_' + v.fnames[i]); dom = doms[k] if doms else 'any'
            v = v.with_(i, Seq(NF, (lambda nm, dom: lambda j: app('dv', [nm, j], 'r', dom))(nm, dom)))
        for i in s.other:
            v = v.with_(i, sym('c_' + v.fnames[i], v.fields[i].sort, 'frac' if v.fields[i].sort == 'r' else 'count'))
        return v
    def step(s, v, w, x, sc=None, st=None):
        f = s.method('step_scaled' if sc is not None else 'step')
        return f, s.S.run(f, [v, w, x] + ([sc] if sc is not None else []), st=st)
def struct1(S, nm, x):
    a = S.adt(nm); fs = [q['name'] for q in a['variants'][0]['fields']]
    if len(fs) != 1: raise Giveup('%s has %d fields' % (nm, len(fs)))
    return Adt(a['path'], 0, a['variants'][0]['name'], [x], fs)
def XV(S, form, name='x', scale=None):
    v = mixed(S, form, name)
    if scale is None: return v
    n = N(name); nm = oname(name)
    if form == 'dense': return Adt(v.path, 0, 'Dense', (arr(Seq(n, lambda j: mul(scale, xact(name, 'sparse', n, j))), name),), ('0',))
    sa = v.fields[0]; k = sa.fnames.index('activations')
    return Adt(v.path, 1, 'Sparse', (sa.with_(k, MapV(n, lambda j: app('mem', [nm, j, n], 'b'), lambda j: mul(scale, app('sv', [nm, j, n], 'r', 'act')))),), ('0',))
def xg(j, name='x', n=NF): return xact(name, 'sparse', n, j)
W = lambda: weights('w', NF)
J = idx('j', NF)
FM = ('dense', 'sparse')

def field_pairs(o, r, va, vb, st2=None, I2=None):
    "field by field equality of two optimiser states"
    out = []
    for i, nm in enumerate(o.v.fnames):
        a = r.I.deref(r.st, va.fields[i]); b = vb.fields[i]
        if st2 is not None: b = I2.deref(st2, b)
        if isinstance(b, T): out.append((nm, [(ts(a), b)]))
        else: out.append((nm, [(seq_n(r.I, r.st, a), seq_n(r.I, r.st, b)), (seq_at(r.I, r.st, a, J), seq_at(r.I, r.st, b, J))]))
    return out
def each(S, pred=lambda sp: True):
    for sp in SPECS:
        if pred(sp):
            def go(sp=sp):
                yield_(S, sp)
            yield sp
def opts(S, fn, pred=lambda sp: True):
    for sp in SPECS:
        if pred(sp): S.guard(sp.nm, lambda sp=sp: fn(Opt(S, sp), sp))
def selfv(r):
    v = r.arg(0)
    if not isinstance(v, Adt): raise Giveup('optimiser after the call: %r' % v)
    return v

def O01(S):
    def go(o, sp):
        doms = sp.roles if len(sp.roles) == len(o.arrays) else None
        for form in FM:
            f, a = o.step(o.arbitrary(doms), W(), XV(S, form))
            g, b = o.step(o.arbitrary(doms), W(), XV(S, form), R(1))
            same(S, o, 'a step is a step with factor one (%s)' % form, f, a, b)
            if not sp.linear: continue
            f, a = o.step(o.arbitrary(doms), W(), XV(S, form), SC)
            g, b = o.step(o.arbitrary(doms), W(), XV(S, form, scale=SC), R(1))
            same(S, o, 'factor and features enter through their product (%s)' % form, f, a, b)
            f, a = o.step(o.arbitrary(doms), W(), XV(S, form), R(0))
            g, b = o.step(o.arbitrary(doms), W(), XV(S, form, scale=R(0)), R(1))
            same(S, o, 'a zero factor contributes nothing (%s)' % form, f, a, b)
        if not sp.linear:
            f, a = o.step(o.arbitrary(doms), W(), XV(S, form), R(0))
            S.eq('a zero factor contributes nothing', f, [(seq_at(a.I, a.st, a.arg(1), J), warray('w', J))], run=a)
    opts(S, go)
def delta(w): return sub(w, warray('w', J)) if not has_unk(w) else w
def same(S, o, rule, f, a, b):
    S.eq(rule + ': weights', f, [(delta(seq_at(a.I, a.st, a.arg(1), J)), delta(seq_at(b.I, b.st, b.arg(1), J))), (seq_n(a.I, a.st, a.arg(1)), NF)], run=a)
    va, vb = selfv(a), selfv(b)
    for nm, ps in field_pairs(o, a, va, vb, b.st, b.I): S.eq('%s: %s' % (rule, nm), f, ps, run=a)
    if a.panics or b.panics: S.eq(rule + ': no abort', f, [(TRUE, TRUE)], run=b)

def O02(S):
    def go(o, sp):
        doms = sp.roles if len(sp.roles) == len(o.arrays) else None
        for nm, sc in (('step', None), ('step_scaled', SC)):
            f, a = o.step(o.arbitrary(doms), W(), XV(S, 'sparse'), sc)
            g, b = o.step(o.arbitrary(doms), W(), XV(S, 'dense'), sc)
            same(S, o, '%s treats sparse and dense alike' % nm, f, a, b)
    opts(S, go)

def O03(S):
    def go(o, sp):
        f = o.method('reset')
        doms = sp.roles if len(sp.roles) == len(o.arrays) else None
        r = S.run(f, [o.arbitrary(doms)])
        v = selfv(r)
        res = []
        for nm, ps in field_pairs(o, r, v, o.v): res.append((nm, compare(ps), ps))
        bad = [x for x in res if x[1].status not in ('proved', 'agree')]
        if bad:
            # judge by behaviour: steps, a reset and steps again against a fresh optimiser
            st = 'agree'; det = ''
            for form in FM:
                w, v1, _ = history(S, o, o.arbitrary(doms), [('x', form), ('y', form)], reset=True)
                w2, v2, _ = history(S, o, o.v, [('x', form), ('y', form)])
                c = compare([(w, w2)])
                if c.status == 'violated': st, det = 'violated', '%s: %s' % (', '.join(x[0] for x in bad), c.detail)
                elif c.status == 'undecided' and st != 'violated': st, det = 'undecided', c.detail
            S.put('behaves like new after a reset', f, st, det)
        else:
            for nm, c, ps in res: S.eq('reset restores %s' % nm, f, ps, run=r)
        S.eq('reset returns normally', f, [(TRUE, TRUE)], run=r)
    opts(S, go)
def history(S, o, v, feats, reset=False):
    "weights (at J) after a sequence of scaled steps from v"
    I_ = S.interp(); st = State()
    vr = Ref(st.new(v)); wr = Ref(st.new(W()))
    if reset: S.run(o.method('reset'), [vr], I_=I_, st=st)
    pan = []
    for k, (name, form) in enumerate(feats):
        r = S.run(o.method('step_scaled'), [vr, wr, Ref(st.new(XV2(S, form, name))), real('s%d' % k)], I_=I_, st=st)
        pan += r.panics
    return seq_at(I_, st, wr, J), I_.deref(st, vr), pan
def XV2(S, form, name):
    nm = oname(name)
    f = lambda j: app('mem', [nm, j, NF], 'b'); g = lambda j: app('sv', [nm, j, NF], 'r', 'act')
    if form == 'dense': return Adt(S.adtpath('Features'), 0, 'Dense', (arr(Seq(NF, lambda j: ite(f(j), g(j), R(0))), name),), ('0',))
    v = sparse(S, name, NF)
    return v

def eps_candidates(t):
    cs = []
    occurs(t, lambda z: z.op == 'const' and z.sort == 'r' and 0 < abs(z.args[0]) <= Fraction(1, 100000) and (cs.append(abs(z.args[0])) or False))
    occurs(t, lambda z: z.op == 'const' and z.sort == 'r' and z.args[0] >= 100000 and (cs.append(1 / z.args[0]) or False))
    # sums keep their constants in the polynomial
    for x in subterms(t):
        for a in x.args:
            if isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Fraction) and 0 < abs(b) <= Fraction(1, 100000): cs.append(abs(b))
    out = []
    for c in cs + TINY:
        if c not in out: out.append(c)
    return out[:8]
def eps_forms(t):
    for e in eps_candidates(t):
        yield lambda root, sq, e=e: add(root, R(e))
        yield lambda root, sq, e=e: max2(root, R(e))
        yield lambda root, sq, e=e: fn1('sqrt', add(sq, R(e))) if root.op != 'max' else add(root, R(e))

def rule_check(S, pid_specs):
    "the update rule: from a fresh state for three steps, and inductively from any reachable state"
    def go(o, sp):
        f = o.method('step_scaled')
        # unrolled from construction (or reset): the first three steps, all mixes of forms
        mixes = [('dense',) * 3, ('sparse',) * 3, ('dense', 'sparse', 'dense'), ('sparse', 'dense', 'sparse')] if sp.roles else [('dense',), ('sparse',)]
        for forms in mixes:
            names = ['x', 'y', 'z'][:len(forms)]
            I_ = S.interp(); st = State(); vr = Ref(st.new(o.v)); wr = Ref(st.new(W()))
            specw = {None: warray('w', J)}
            pan = []
            state = {}
            for k, form in enumerate(forms):
                r = S.run(f, [vr, wr, Ref(st.new(XV2(S, form, names[k]))), real('s%d' % k)], I_=I_, st=st)
                pan += r.panics
                w = seq_at(I_, st, wr, J)
                cands = []
                for ef in (eps_forms(w) if sp.eps else [None]):
                    stv = [R(0)] * len(sp.roles); ws = warray('w', J)
                    for q in range(k + 1):
                        g = mul(real('s%d' % q), xact(names[q], 'sparse', NF, J))
                        stv, d = sp.rule(stv, g, q + 1, ef, None)
                        ws = add(ws, d)
                    cands.append([(delta(w), delta(ws))])
                r.I.panics = pan
                S.eq('weights after step %d from a fresh state (%s)' % (k + 1, ', '.join(forms[:k + 1])), f, cands[0], run=r, alts=cands[1:])
        if not sp.roles: return
        inductive(S, o, sp, f)
    for sp in pid_specs: S.guard(sp.nm, lambda sp=sp: go(Opt(S, sp), sp))

def deep(S, o, sp, f, K=10):
    "a longer history, when the state is not a recognised function of the number of steps"
    I_ = S.interp(); st = State(); vr = Ref(st.new(o.v)); wr = Ref(st.new(W())); pan = []
    for k in range(K):
        r = S.run(f, [vr, wr, Ref(st.new(XV2(S, 'dense', 'x%d' % k))), real('s%d' % k)], I_=I_, st=st); pan += r.panics
    w = seq_at(I_, st, wr, J); cands = []
    for ef in (eps_forms(w) if sp.eps else [None]):
        stv = [R(0)] * len(sp.roles); ws = warray('w', J)
        for q in range(K):
            stv, d = sp.rule(stv, mul(real('s%d' % q), xact('x%d' % q, 'sparse', NF, J)), q + 1, ef, None); ws = add(ws, d)
        cands.append([(delta(w), delta(ws))])
    r.I.panics = pan
    S.eq('weights after %d steps from a fresh state' % K, f, cands[0], run=r, alts=cands[1:])
def counters(S, o, sp):
    """each scalar that is not a hyper-parameter, as a function of the number t of steps taken: found by its
    initial value and confirmed by one symbolic step"""
    t = usize('t', 'count')
    funs = [lambda k: powi(B1, k), lambda k: powi(B2, k), lambda k: powi(MO, k), lambda k: k, lambda k: add(k, I(1)),
            lambda k: sub(R(1), powi(B1, k)), lambda k: sub(R(1), powi(B2, k)), lambda k: i2r(k), lambda k: add(i2r(k), R(1)), lambda k: mul(powi(B1, k), powi(B2, k)),
            lambda k: powi(B1, add(k, I(1))), lambda k: powi(B2, add(k, I(1)))]
    poss = []
    for i in o.other:
        poss.append([h for h in funs if h(I(0)).sort == o.v.fields[i].sort and compare([(h(I(0)), o.v.fields[i])]).status == 'proved'])
    for pick_ in product(*poss):
        v = o.v
        for i, h in zip(o.other, pick_): v = v.with_(i, h(t))
        f, r = o.step(with_arrays(o, v, sp.roles), W(), XV(S, 'dense'), SC)
        v2 = selfv(r)
        if all(compare([(ts(r.I.deref(r.st, v2.fields[i])), h(add(t, I(1))))]).status == 'proved' for i, h in zip(o.other, pick_)): return t, v
    return None
def with_arrays(o, v, doms, perm=None):
    for k, i in enumerate(o.arrays):
        nm = oname('role%d' % (perm[k] if perm else k)); dom = doms[perm[k] if perm else k]
        v = v.with_(i, Seq(NF, (lambda nm, dom: lambda j: app('dv', [nm, j], 'r', dom))(nm, dom)))
    return v
def inductive(S, o, sp, f):
    rule = 'update rule at any step'
    if len(o.arrays) != len(sp.roles):
        return S.put(rule, f, 'undecided', '%d state arrays, the rule has %d' % (len(o.arrays), len(sp.roles)))
    c = counters(S, o, sp)
    if c is None:
        S.put(rule, f, 'undecided', 'step counters are not a recognised function of the number of steps')
        return deep(S, o, sp, f)
    t, base = c
    best = None
    for perm in permutations(range(len(sp.roles))):
        res = []
        for form in FM:
            v0 = with_arrays(o, base, sp.roles, perm)
            g_, r = o.step(v0, W(), XV(S, form), SC)
            v2 = selfv(r)
            w = seq_at(r.I, r.st, r.arg(1), J)
            old = [app('dv', [oname('role%d' % k), J], 'r', sp.roles[k]) for k in range(len(sp.roles))]
            g = mul(SC, xg(J)); cands = []
            for ef in (eps_forms(w) if sp.eps else [None]):
                new, d = sp.rule(old, g, add(t, I(1)), ef, None)
                cands.append((new, d))
            for k, i in enumerate(o.arrays):
                res.append(('new %s (%s)' % (o.v.fnames[i], form), [(seq_at(r.I, r.st, v2.fields[i], J), cands[0][0][perm[k]]), (seq_n(r.I, r.st, v2.fields[i]), NF)], [], r))
            cs = [[(delta(w), d), (seq_n(r.I, r.st, r.arg(1)), NF)] for _, d in cands]
            res.append(('weights (%s)' % form, cs[0], cs[1:], r))
        k = sum(compare(ps).status == 'violated' for _, ps, al, r in res)
        if best is None or k < best[0]: best = (k, res)
    for nm, ps, al, r in best[1]: S.eq('%s: %s' % (rule, nm), f, ps, run=r, alts=al)

def O04(S):
    rule_check(S, [spec('SGD')])
    def go(o, sp):
        q = bv('i', 'k')
        sq = sum_(NF, q, mul(xg(q), xg(q)))
        for form in FM:
            for sc in (None, SC):
                f, r = o.step(o.v, W(), XV(S, form), sc)
                g = mul(xg(J), sc if sc is not None else R(1))
                S.eq('implicit SGD %s (%s)' % (f['name'], form), f, [(delta(seq_at(r.I, r.st, r.arg(1), J)), div(mul(LR, g), add(R(1), mul(LR, sq))))], run=r)
    S.guard('ISGD', lambda: go(Opt(S, spec('ISGD')), spec('ISGD')))
    def st(o, sp):
        for form in FM:
            for sc in (None, SC):
                f, r = o.step(o.arbitrary(), W(), XV(S, form), sc)
                if sc is None and sp.nm == 'SGD': S.eq('step (%s)' % form, f, [(delta(seq_at(r.I, r.st, r.arg(1), J)), mul(LR, xg(J)))], run=r)
                for nm, ps in field_pairs(o, r, selfv(r), o.arbitrary()): S.eq('no state is kept by %s: %s (%s)' % (f['name'], nm, form), f, ps, run=r)
    opts(S, st, lambda sp: not sp.roles)
def O05(S): rule_check(S, [spec('SGDMomentum'), spec('NAG')])
def O06(S): rule_check(S, [spec('Adagrad')])
def O07(S): rule_check(S, [spec('Adam'), spec('AdaMax')])

def O08(S):
    def go(o, sp):
        doms = sp.roles if len(sp.roles) == len(o.arrays) else None
        hyper = [i for i in o.hyper]
        got = {id(o.v.fields[i]) for i in hyper}
        want = sp.args if sp.args is not None else [LR]
        for h in want: S.put('constructor keeps %s' % h.args[0], o.ctor, 'proved' if id(h) in got else 'undecided', '')
        for i in o.derived: S.put('constructor keeps what it is given', o.ctor, 'undecided', '%s is %s' % (o.v.fnames[i], show(o.v.fields[i])[:100]))
        for i in o.arrays:
            x = o.v.fields[i]; r = o.run
            S.eq('fresh %s has the requested size' % o.v.fnames[i], o.ctor, [(seq_n(r.I, r.st, x), NF)], run=r)
            S.eq('fresh %s is zero' % o.v.fnames[i], o.ctor, [(seq_at(r.I, r.st, x, J), R(0))], run=r)
        runs = []
        for form in FM:
            for sc in (None, SC):
                f, r = o.step(o.arbitrary(doms), W(), XV(S, form), sc)
                S.holds('%s succeeds (%s)' % (f['name'], form), f, okp(r.v), run=r)
                runs.append(('%s (%s)' % (f['name'], form), f, r))
        f = o.method('reset'); runs.append(('reset', f, S.run(f, [o.arbitrary(doms)])))
        for nm, f, r in runs:
            v = selfv(r)
            for i in hyper: S.eq('%s keeps %s' % (nm, o.v.fnames[i]), f, [(ts(r.I.deref(r.st, v.fields[i])), o.v.fields[i])], run=r)
            for i in o.arrays: S.eq('%s keeps the size of %s' % (nm, o.v.fnames[i]), f, [(seq_n(r.I, r.st, v.fields[i]), NF)], run=r)
    opts(S, go)
