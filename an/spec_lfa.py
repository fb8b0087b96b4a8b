"""L01-L05: the approximators."""
from core import *
from spec_features import warray
from spec_basis import user_basis, user_input, XO, ERR, dim_term

FM = ('dense', 'sparse')
def is1(s): return '[usize; 1]' in s
def is2(s): return '[usize; 2]' in s
def isgen(s): return '[usize;' not in s
NC = usize('nc')
WM = oname('W')
def wmat(i, j): return app('mv', [WM, i, j], 'r')
def lfa(S, b, w, o):
    a = S.adt('LFA'); fs = [x['name'] for x in a['variants'][0]['fields']]
    known = {'basis': b, 'weights': w, 'optimiser': o}
    if set(fs) != set(known): raise Giveup('LFA has fields %s' % fs)
    return Adt(a['path'], 0, 'LFA', [known[x] for x in fs], fs)
def part(S, r, nm):
    v = r.arg(0)
    if not isinstance(v, Adt): raise Giveup('model after the call: %r' % (v,))
    return r.I.deref(r.st, v.get(nm))
def user_opt(S, fails=False, stateful=False):
    """an optimiser known only by its contract: the new weights, its new state and its success are functions of
    its state, the weights, the features and the factor"""
    tag = 'optimiser'
    def step(I_, st, v, a, sc=None):
        w = I_.deref(st, a[1]); feats = lib.digest(I_, st, a[2])
        s = I_.scalar(st, a[3]) if sc is None else sc
        if not isinstance(w, Seq):
            return Unk('weights passed to the optimiser: %s' % getattr(w, 'why', type(w).__name__))
        wd = lib.digest(I_, st, w)
        o = v.t if stateful else oname('opt')
        I_.write(st, I_.place_of(st, a[1]), Seq(w.n, lambda j: app('stepw', [o, wd, feats, s, j], 'r')))
        if stateful: I_.write(st, I_.place_of(st, a[0]), Opq(app('opt_next', [v.t, wd, feats, s], 'o'), tag))
        if not fails: return ok(UNIT)
        return vite(app('opt_ok', [o, wd, feats, s], 'b'), ok(UNIT), err(Opq(app('opt_err', [o, wd, feats, s], 'o'), ERR)))
    S.opaque[(tag, 'step_scaled')] = step
    S.opaque[(tag, 'step')] = lambda I_, st, v, a: step(I_, st, v, a, R(1))
    def reset(I_, st, v, a):
        I_.write(st, I_.place_of(st, a[0]), Opq(app('opt_reset', [v.t], 'o'), tag)); return UNIT
    S.opaque[(tag, 'reset')] = reset
    S.opaque[(tag, 'clone')] = lambda I_, st, v, a: v
    return Opq(oname('opt'), tag)
def stepw(o, w, feats, s, j): return app('stepw', [o, w, feats, s, j], 'r')
def fdig(S, b):
    "the projection as the optimiser sees it"
    I_ = S.interp(); st = State()
    q = bv('i', 'k')
    return app('features', [b.n, sum_(b.n, q, app('dig', [q, b.at(XO, q)], 'r'))], 'o')
def sdig(n, at):
    q = bv('i', 'k')
    return app('seq', [n, sum_(n, q, app('dig', [q, at(q)], 'r'))], 'o')
def dotw(b, at):
    q = bv('i', 'k')
    return sum_(b.n, q, mul(b.at(XO, q), at(q)))

def scalar_lfa(S, form, fails=True, opt=None):
    b = user_basis(S, 'b', form, fails=fails)
    return b, lfa(S, b, arr(Seq(b.n, lambda j: warray('w', j)), 'w'), opt or user_opt(S))
def vector_lfa(S, form, fails=True, opt=None):
    b = user_basis(S, 'b', form, fails=fails)
    return b, lfa(S, b, arr(Mat(b.n, NC, wmat), 'W'), opt or user_opt(S))
def method(S, nm, kind): return S.fn('LFA', nm, self_={'s': is1, 'v': is2, 'g': isgen}[kind])

def unchanged(S, rule, f, r, b, kind, assume=TRUE, opt=None):
    j = idx('j', b.n)
    w = part(S, r, 'weights')
    if kind == 's': S.eq(rule + ': weights', f, [(seq_at(r.I, r.st, w, j), warray('w', j)), (seq_n(r.I, r.st, w), b.n)], assume, run=r)
    else:
        c = idx('c', NC)
        S.eq(rule + ': weights', f, [(mat_at(r, w, j, c), wmat(j, c)), (w.nr if isinstance(w, Mat) else TM.unk('weights'), b.n), (w.nc if isinstance(w, Mat) else TM.unk('weights'), NC)], assume, run=r)
    o = part(S, r, 'optimiser')
    S.eq(rule + ': optimiser', f, [(otm(o), oname('opt'))], assume, run=r)
    S.eq(rule + ': basis', f, [(otm(part(S, r, 'basis')), b.t)], assume, run=r)
def otm(o): return ts(gated(o, lambda x: x.t if isinstance(x, Opq) else TM.unk(getattr(x, 'why', 'opaque part'))))
def mat_at(r, w, i, j):
    w = r.I.deref(r.st, w)
    return ts(gated(w, lambda x: ts(r.I.deref(r.st, x.at(i, j))) if isinstance(x, Mat) else TM.unk(getattr(x, 'why', 'matrix: %s' % type(x).__name__))))

def items(S, r, it, what, b, f):
    "what a crate iterator yields: its k-th item, and that it ends after the last"
    I_, st = r.I, r.st
    s = I_.deref(st, it)
    out = lib.stream_of(I_, st, s) if hasattr(lib, 'stream_of') else None
    return out

def L01(S):
    j = None
    def sc():
        f = method(S, 'evaluate', 's')
        for form in FM:
            b, m = scalar_lfa(S, form)
            r = S.run(f, [m, user_input()])
            S.eq('scalar evaluation succeeds with the projection (%s)' % form, f, [(okp(r.v), b.okc(XO))], run=r)
            S.eq('scalar evaluation is the dot product (%s)' % form, f, [(ts(r.I.deref(r.st, okv(r.v))), dotw(b, lambda q: warray('w', q)))], b.okc(XO), run=r)
            unchanged(S, 'scalar evaluation changes nothing (%s)' % form, f, r, b, 's')
    S.guard('scalar evaluation', sc)
    def ve():
        f = method(S, 'evaluate', 'v')
        c = idx('c', NC)
        for form in FM:
            b, m = vector_lfa(S, form)
            r = S.run(f, [m, user_input()])
            S.eq('vector evaluation succeeds with the projection (%s)' % form, f, [(okp(r.v), b.okc(XO))], run=r)
            v = r.I.deref(r.st, okv(r.v))
            S.eq('vector evaluation has one value per output (%s)' % form, f, [(seq_n(r.I, r.st, v), NC)], b.okc(XO), run=r)
            S.eq('vector evaluation is one dot product per column (%s)' % form, f, [(seq_at(r.I, r.st, v, c), dotw(b, lambda q: wmat(q, c)))], b.okc(XO), run=r)
            unchanged(S, 'vector evaluation changes nothing (%s)' % form, f, r, b, 'v')
        f = method(S, 'evaluate_index', 'v')
        for form in FM:
            b, m = vector_lfa(S, form)
            r = S.run(f, [m, user_input(), c])
            S.eq('single-output evaluation succeeds with the projection (%s)' % form, f, [(okp(r.v), b.okc(XO))], run=r)
            S.eq('single-output evaluation is the dot product with its column (%s)' % form, f, [(ts(r.I.deref(r.st, okv(r.v))), dotw(b, lambda q: wmat(q, c)))], b.okc(XO), run=r)
            unchanged(S, 'single-output evaluation changes nothing (%s)' % form, f, r, b, 'v')
            b, m = vector_lfa(S, form)
            refused(S, 'an output that does not exist has no value (%s)' % form, f, S.run(f, [m, user_input(), add(NC, usize('past'))]), b.okc(XO))
    S.guard('vector evaluation', ve)
    def it():
        # next() yields the value of the current column and moves on; the length hints count the columns left
        for nm, wrap in (('iter', False), ('try_iter', True)):
            f = method(S, nm, 'v')
            for form in FM:
                b, m = vector_lfa(S, form, fails=wrap)
                r = S.run(f, [m, user_input()])
                v = r.I.deref(r.st, r.v)
                asm = TRUE
                if wrap:
                    S.eq('%s succeeds with the projection (%s)' % (nm, form), f, [(okp(v), b.okc(XO))], run=r); asm = b.okc(XO)
                    v = r.I.deref(r.st, okv(v))
                unchanged(S, '%s changes nothing (%s)' % (nm, form), f, r, b, 'v')
                yields(S, nm, form, f, r, v, b, asm)
    S.guard('iterator-style evaluation', it)
def yields(S, nm, form, f, r, v, b, asm):
    I_, st = r.I, r.st
    if isinstance(v, Stream):
        c = idx('c', NC); g, x = v.pull(st, c)
        S.eq('%s yields one value per output (%s)' % (nm, form), f, [(v.length() if v.length() is not None else TM.unk('unbounded'), NC)], asm, run=r)
        S.eq('%s yields the dot products in column order (%s)' % (nm, form), f, [(ts(I_.deref(st, x)), dotw(b, lambda q: wmat(q, c)))], asm, run=r)
        return
    if not isinstance(v, Adt): return S.put('%s yields the dot products in column order (%s)' % (nm, form), f, 'undecided', repr(v)[:200])
    it = v.path.split('::')[-1]
    nx = S.fn(it, 'next', 'Iterator')
    vr = Ref(st.new(v))
    for k in range(3):
        h = [x for x in S.fns(it, 'size_hint', 'Iterator')]
        for q in h:
            rr = S.run(q, [vr], I_=I_, st=st); t = I_.deref(st, rr.v)
            left = max2(sub(NC, I(k)), I(0))
            lo_, hi_ = (I_.deref(st, t.items[0]), I_.deref(st, t.items[1])) if isinstance(t, Tup) else (TM.unk('size hint'), Unk('size hint'))
            S.eq('size hint after %d values (%s, %s)' % (k, nm, form), q, [(ts(lo_), left), (ts(I_.deref(st, somev(hi_))), left), (somep(hi_), TRUE)], asm, run=rr)
        for q in S.fns(it, 'len', 'ExactSizeIterator'):
            rr = S.run(q, [vr], I_=I_, st=st)
            S.eq('length after %d values (%s, %s)' % (k, nm, form), q, [(ts(rr.v), max2(sub(NC, I(k)), I(0)))], asm, run=rr)
        rr = S.run(nx, [vr], I_=I_, st=st); t = rr.v
        S.eq('value %d exists exactly if there is an output %d (%s, %s)' % (k, k, nm, form), nx, [(somep(t), lt(I(k), NC))], asm, run=rr)
        S.eq('value %d is the dot product with column %d (%s, %s)' % (k, k, nm, form), nx, [(ts(I_.deref(st, somev(t))), dotw(b, lambda q: wmat(q, I(k))))], and_(asm, lt(I(k), NC)), run=rr)

    # methods the iterator provides itself must agree with calling next repeatedly
    val = lambda k: dotw(b, lambda q: wmat(q, k))
    for q in [x for t in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator') for x in S.fns(it, None, t)]:
        n = q['name']
        if n in ('next', 'size_hint', 'len'): continue
        I2 = I_; st2 = st.copy(); v2 = Ref(st2.new(v)); k = usize('k'); rule = '%s agrees with next (%s, %s)' % (n, nm, form)
        if n == 'nth':
            rr = S.run(q, [v2, k], I_=I2, st=st2)
            S.eq(rule, q, [(somep(rr.v), lt(k, NC))], asm, run=rr)
            S.eq(rule, q, [(ts(I2.deref(st2, somev(rr.v))), val(k))], and_(asm, lt(k, NC)), run=rr)
            rr = S.run(nx, [v2], I_=I2, st=st2)
            S.eq('next after %s (%s, %s)' % (n, nm, form), q, [(somep(rr.v), lt(add(k, I(1)), NC))], asm, run=rr)
            S.eq('next after %s (%s, %s)' % (n, nm, form), q, [(ts(I2.deref(st2, somev(rr.v))), val(add(k, I(1))))], and_(asm, lt(add(k, I(1)), NC)), run=rr)
        elif n in ('count', 'len'):
            rr = S.run(q, [v], I_=I2, st=st2); S.eq(rule, q, [(ts(rr.v), NC)], asm, run=rr)
        elif n in ('last', 'next_back'):
            rr = S.run(q, [v if n == 'last' else v2], I_=I2, st=st2)
            S.eq(rule, q, [(somep(rr.v), lt(I(0), NC))], asm, run=rr)
            S.eq(rule, q, [(ts(I2.deref(st2, somev(rr.v))), val(sub(NC, I(1))))], and_(asm, lt(I(0), NC)), run=rr)
        elif n in ('fold', 'rfold'):
            rr = S.run(q, [v, real('z'), ufn('g')], I_=I2, st=st2)
            i, acc = bv('i', 'k'), bv('r', 'acc'); at = i if n == 'fold' else sub(sub(NC, I(1)), i)
            S.eq(rule, q, [(ts(rr.v), mkfold(NC, i, [acc], [real('z')], [app('g', [acc, val(at)], 'r')], 0))], asm, run=rr)
        else: S.put(rule, q, 'undecided', 'method %s of the iterator' % n)

def L02(S):
    def sc():
        j = None
        for nm in ('update', 'update_with'):
            f = method(S, nm, 's')
            for form in FM:
                b, m = scalar_lfa(S, form, fails=False, opt=user_opt(S, stateful=True))
                j = idx('j', b.n)
                if nm == 'update': e = real('e'); args = [m, user_input(), e]
                else: e = app('f', [fdig(S, b), dotw(b, lambda q: warray('w', q))], 'r'); args = [m, user_input(), ufn('f')]
                w0 = sdig(b.n, lambda q: warray('w', q))
                r = S.run(f, args)
                w = part(S, r, 'weights')
                S.eq('scalar %s is one step with projection and error (%s)' % (nm, form), f, [(seq_at(r.I, r.st, w, j), stepw(oname('opt'), w0, fdig(S, b), e, j)), (seq_n(r.I, r.st, w), b.n)], run=r)
                S.holds('scalar %s succeeds with the step (%s)' % (nm, form), f, okp(r.v), run=r)
                S.eq('scalar %s performs exactly one step (%s)' % (nm, form), f, [(otm(part(S, r, 'optimiser')), app('opt_next', [oname('opt'), w0, fdig(S, b), e], 'o'))], run=r)
                b, m = scalar_lfa(S, form, fails=False, opt=user_opt(S, fails=True))
                r = S.run(f, [m] + args[1:])
                key = [oname('opt'), w0, fdig(S, b), e]
                S.eq('scalar %s returns the optimiser result (%s)' % (nm, form), f, [(okp(r.v), app('opt_ok', key, 'b'))], run=r)
                S.eq('scalar %s returns the optimiser error (%s)' % (nm, form), f, [(otm(errv(r.v)), app('opt_err', key, 'o'))], not_(app('opt_ok', key, 'b')), run=r)
    S.guard('scalar updates', sc)
    def ve():
        ne = usize('ne')
        for nm in ('update', 'update_with', 'update_index'):
            f = method(S, nm, 'v')
            for form in FM:
                def args(m, b):
                    if nm == 'update': return [m, user_input(), arr(Seq(ne, lambda k: app('ev', [k], 'r')), 'errors')]
                    if nm == 'update_index': return [m, user_input(), idx('ci', NC), real('e')]
                    return [m, user_input(), errfn()]
                def errfn():
                    def g(I_, st, a):
                        d0, d1 = lib.digest(I_, st, a[0]), lib.digest(I_, st, a[1])
                        return arr(Seq(app('nfe', [d0, d1], 'i'), lambda k: app('fe', [d0, d1, k], 'r')), 'errors')
                    return UFn('f', g)
                def err_at(b, c):
                    if nm == 'update': return app('ev', [c], 'r')
                    if nm == 'update_index': return real('e')
                    return app('fe', [fdig(S, b), vals(b), c], 'r')
                def vals(b): return sdig(NC, lambda c: dotw(b, lambda q: wmat(q, c)))
                def touched(b, c):
                    if nm == 'update': return lt(c, ne)
                    if nm == 'update_index': return eq(c, idx('ci', NC))
                    return lt(c, app('nfe', [fdig(S, b), vals(b)], 'i'))
                def nsteps(b):
                    if nm == 'update': return min2(ne, NC)
                    if nm == 'update_index': return I(1)
                    return min2(app('nfe', [fdig(S, b), vals(b)], 'i'), NC)
                c = idx('c', NC)
                b, m = vector_lfa(S, form, fails=False, opt=user_opt(S))
                j = idx('j', b.n)
                r = S.run(f, args(m, b))
                w = part(S, r, 'weights')
                col = lambda b, c: sdig(b.n, lambda q: wmat(q, c))
                new = stepw(oname('opt'), col(b, c), fdig(S, b), err_at(b, c), j)
                S.eq('vector %s is one step per output with projection and its error (%s)' % (nm, form), f, [(mat_at(r, w, j, c), ite(touched(b, c), new, wmat(j, c)))], run=r)
                bs, ms = vector_lfa(S, form, fails=False, opt=user_opt(S, stateful=True))
                rs = S.run(f, args(ms, bs))
                # the state each step finds: what the steps of the outputs before left, or what the output itself had
                q, z = bv('i', 'k'), bv('o', 'st')
                nxt = lambda z, c: app('opt_next', [z, col(b, c), fdig(S, b), err_at(b, c)], 'o')
                threaded = lambda n: mkfold(n, q, [z], [oname('opt')], [nxt(z, q)], 0) if nm != 'update_index' else oname('opt')
                want = lambda o: ite(touched(b, c), stepw(o, col(b, c), fdig(S, b), err_at(b, c), j), wmat(j, c))
                ws = part(S, rs, 'weights')
                S.eq('vector %s takes each step with the state the optimiser had (%s)' % (nm, form), f, [(mat_at(rs, ws, j, c), want(threaded(c)))], run=rs, alts=[[(mat_at(rs, ws, j, c), want(oname('opt')))]])
                if nm == 'update_index': end = nxt(oname('opt'), idx('ci', NC))
                else: end = threaded(nsteps(b))
                S.eq('vector %s takes no other step (%s)' % (nm, form), f, [(otm(part(S, rs, 'optimiser')), end)], run=rs, alts=[[(otm(part(S, rs, 'optimiser')), oname('opt'))]])
                S.eq('vector %s keeps the shape (%s)' % (nm, form), f, [(w.nr if isinstance(w, Mat) else TM.unk('weights'), b.n), (w.nc if isinstance(w, Mat) else TM.unk('weights'), NC)], run=r)
                S.holds('vector %s succeeds with the steps (%s)' % (nm, form), f, okp(r.v), run=r)
                b, m = vector_lfa(S, form, fails=False, opt=user_opt(S, fails=True))
                r = S.run(f, args(m, b))
                q = bv('i', 'k')
                key = lambda c: [oname('opt'), col(b, c), fdig(S, b), err_at(b, c)]
                allok = all_(NC, q, or_(not_(touched(b, q)), app('opt_ok', key(q), 'b'))) if nm != 'update_index' else app('opt_ok', key(idx('ci', NC)), 'b')
                S.eq('vector %s succeeds exactly if every step does (%s)' % (nm, form), f, [(okp(r.v), allok)], run=r)
                if nm == 'update_index':
                    b1, m1 = vector_lfa(S, form, fails=False, opt=user_opt(S))
                    refused(S, 'an output that does not exist is not updated (%s)' % form, f, S.run(f, [m1, user_input(), add(NC, usize('past')), real('e')]))
                    S.eq('vector %s returns the optimiser error (%s)' % (nm, form), f, [(otm(errv(r.v)), app('opt_err', key(idx('ci', NC)), 'o'))], not_(allok), run=r)
    S.guard('vector updates', ve)

def refused(S, rule, f, r, assume=TRUE):
    "the call aborts or returns an error"
    if r.dead: return S.put(rule, f, 'proved')
    S.eq(rule, f, [(or_(not_(okp(r.v)), *[c for c, si, w in r.panics]), TRUE)], assume)

def L03(S):
    def go(kind):
        for nm in ('evaluate', 'evaluate_index', 'try_iter', 'update', 'update_index', 'update_with'):
            if kind == 's' and nm in ('evaluate_index', 'try_iter', 'update_index'): continue
            f = method(S, nm, kind)
            for form in FM:
                b, m = (scalar_lfa if kind == 's' else vector_lfa)(S, form, opt=user_opt(S, stateful=True))
                a = [m, user_input()]
                if nm.endswith('_index'): a.append(idx('ci', NC))
                if nm in ('update', 'update_index'): a.append(Seq(usize('ne'), lambda k: app('ev', [k], 'r')) if kind == 'v' and nm == 'update' else real('e'))
                if nm == 'update_with':
                    a.append(ufn('f') if kind == 's' else UFn('f', lambda I_, st, a: Seq(NC, (lambda d0, d1: lambda k: app('fe', [d0, d1, k], 'r'))(lib.digest(I_, st, a[0]), lib.digest(I_, st, a[1])))))
                r = S.run(f, a)
                asm = not_(b.okc(XO))
                k = 'scalar' if kind == 's' else 'vector'
                S.eq('%s %s reports a failed projection (%s)' % (k, nm, form), f, [(okp(r.v), FALSE)], asm, run=r)
                S.eq('%s %s returns the error of the basis (%s)' % (k, nm, form), f, [(otm(errv(r.v)), b.err(XO))], asm, run=r)
                unchanged(S, '%s %s with a failed projection (%s)' % (k, nm, form), f, r, b, kind, asm)
    S.guard('scalar', lambda: go('s'))
    S.guard('vector', lambda: go('v'))
    import effects, spec_basis
    spec_basis.inner_errors(S)
    S.guard('dropped errors', lambda: effects.dropped_errors(S))

def L04(S):
    def sc():
        f = method(S, 'scalar', 's')
        b = user_basis(S, 'b', 'dense'); o = user_opt(S)
        r = S.run(f, [b, o]); v = r.v
        j = idx('j', b.n)
        w = field(r, v, 'weights')
        S.eq('a fresh scalar approximator has one weight per feature', f, [(seq_n(r.I, r.st, w), b.n)], run=r)
        S.eq('a fresh scalar approximator has zero weights', f, [(seq_at(r.I, r.st, w, j), R(0))], run=r)
        kept(S, f, r, v, b)
    S.guard('scalar construction', sc)
    def ve():
        f = method(S, 'vector', 'v')
        b = user_basis(S, 'b', 'dense'); o = user_opt(S); m = usize('m')
        r = S.run(f, [b, o, m]); v = r.v
        j = idx('j', b.n); c = idx('c', m)
        w = r.I.deref(r.st, field(r, v, 'weights'))
        g = lambda h: ts(gated(w, lambda x: h(x) if isinstance(x, Mat) else TM.unk(getattr(x, 'why', 'weights: %s' % type(x).__name__))))
        S.eq('a fresh multi-output approximator has one row per feature', f, [(g(lambda x: x.nr), b.n)], run=r)
        S.eq('a fresh multi-output approximator has one column per output', f, [(g(lambda x: x.nc), m)], run=r)
        S.eq('a fresh multi-output approximator has zero weights', f, [(mat_at(r, w, j, c), R(0))], run=r)
        kept(S, f, r, v, b)
        f = method(S, 'n_outputs', 'v')
        b, m = vector_lfa(S, 'dense')
        r = S.run(f, [m])
        S.eq('the number of outputs is the number of weight columns', f, [(ts(r.v), NC)], run=r)
    S.guard('multi-output construction', ve)
    def ge():
        f = method(S, 'new', 'g')
        b = user_basis(S, 'b', 'dense'); o = user_opt(S)
        r = S.run(f, [b, Opq(oname('w'), 'weights'), o]); v = r.v
        kept(S, f, r, v, b)
        S.eq('construction keeps the given weights', f, [(otm(field(r, v, 'weights')), oname('w'))], run=r)
    S.guard('construction', ge)
def field(r, v, nm):
    v = r.I.deref(r.st, v)
    return r.I.deref(r.st, v.get(nm)) if isinstance(v, Adt) and nm in v.fnames else Unk('no field %s' % nm)
def kept(S, f, r, v, b):
    S.eq('construction keeps the given basis', f, [(otm(field(r, v, 'basis')), b.t)], run=r)
    S.eq('construction keeps the given optimiser', f, [(otm(field(r, v, 'optimiser')), oname('opt'))], run=r)

def L05(S):
    def go():
        ne = usize('ne')
        c = idx('c', NC)
        col = lambda b, c: sdig(b.n, lambda q: wmat(q, c))
        # weights: an update of one output leaves the others alone
        f = method(S, 'update_index', 'v')
        for form in FM:
            b, m = vector_lfa(S, form, fails=False, opt=user_opt(S, stateful=True)); j = idx('j', b.n); ci = idx('ci', NC)
            r = S.run(f, [m, user_input(), ci, real('e')])
            w = part(S, r, 'weights')
            S.eq('update of one output leaves the weights of the others (%s)' % form, f, [(mat_at(r, w, j, c), wmat(j, c))], not_(eq(c, ci)), run=r)
            S.eq('update of one output trains it as if on its own (%s)' % form, f, [(mat_at(r, w, j, ci), stepw(oname('opt'), col(b, ci), fdig(S, b), real('e'), j))], run=r)
        # what the optimiser accumulated for one output must not reach another
        b, m = vector_lfa(S, 'dense', fails=False, opt=user_opt(S, stateful=True)); j = idx('j', b.n)
        I_ = S.interp(); st = State(); mr = Ref(st.new(m))
        S.run(f, [mr, user_input(), I(0), real('e')], I_=I_, st=st)
        r = S.run(f, [mr, user_input(), I(1), real('e1')], I_=I_, st=st)
        S.eq('optimiser state is kept per output', f, [(mat_at(r, part(S, r, 'weights'), j, I(1)), stepw(oname('opt'), col(b, I(1)), fdig(S, b), real('e1'), j))], lt(I(1), NC))
        for nm in ('update', 'update_with'):
            f = method(S, nm, 'v')
            for form in FM:
                # two outputs are enough to see state pass from one to the other
                b, m = vector_lfa(S, form, fails=False, opt=user_opt(S)); j = idx('j', b.n)
                ev = lambda k: app('ev', [k], 'r')
                arg = Seq(NC, ev) if nm == 'update' else UFn('f', lambda I_, st, a: Seq(NC, ev))
                r = S.run(f, [m, user_input(), arg])
                S.eq('%s trains each output with its own error (%s)' % (nm, form), f, [(mat_at(r, part(S, r, 'weights'), j, c), stepw(oname('opt'), col(b, c), fdig(S, b), ev(c), j))], run=r)
            b, m = vector_lfa(S, 'dense', fails=False, opt=user_opt(S, stateful=True))
            r = S.run(f, [m, user_input(), arg])
            S.eq('optimiser state is kept per output', f, [(mat_at(r, part(S, r, 'weights'), j, c), stepw(oname('opt'), col(b, c), fdig(S, b), ev(c), j))])
    S.guard('independence', go)
