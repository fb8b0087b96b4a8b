"""B01-B15: bases, combinators and kernels."""
import re
from core import *
from spec_features import negligible

ERR = 'error'
def xseq(D, name='x'):
    nm = oname(name)
    return Seq(D, lambda d: app('xv', [nm, d], 'r'))
def xv(d, name='x'): return app('xv', [oname(name), d], 'r')
def byval(v): return lambda st: v
def byref(v): return lambda st: Ref(st.new(v))
def self_is(sub_): return lambda s: sub_ in s

# ------------------------------------------------------------------ opaque user pieces
def phi_name(b, x): return app('phi', [b, x], 'o')
def phi_val(S, form, nm, n, dom='act'):
    if form == 'dense': return Adt(S.adtpath('Features'), 0, 'Dense', (arr(Seq(n, lambda j: app('dv', [nm, j], 'r', dom)), nm if isinstance(nm, str) else 'projection'),), ('0',))
    a = S.adt('SparseActivations'); fn = [x['name'] for x in a['variants'][0]['fields']]
    vals = {'dim': n, 'activations': MapV(n, lambda j: app('mem', [nm, j, n], 'b'), lambda j: app('sv', [nm, j, n], 'r', dom))}
    return Adt(S.adtpath('Features'), 1, 'Sparse', (Adt(a['path'], 0, 'SparseActivations', [vals[x] for x in fn], fn),), ('0',))
def phi_at(form, nm, n, j, dom='act'):
    if form == 'dense': return app('dv', [nm, j], 'r', dom)
    return ite(app('mem', [nm, j, n], 'b'), app('sv', [nm, j, n], 'r', dom), R(0))
def user_basis(S, name, form, dom='act', fails=True):
    "a basis known only by its contract: a fixed dimensionality, a projection that may fail, single features that agree with it"
    tag = 'basis ' + name; b = oname(name); n = app('dim', [b], 'i')
    S.opaque[(tag, 'dim')] = lambda I_, st, v, a: lib.finite(lib.DIM, n)
    S.opaque[(tag, 'n_features')] = lambda I_, st, v, a: n
    S.opaque[(tag, 'card')] = lambda I_, st, v, a: Opq(app('card', [b], 'o'), 'card')
    S.opaque[(tag, 'clone')] = lambda I_, st, v, a: v
    def okc(x): return app('proj_ok', [b, x], 'b') if fails else TRUE
    def project(I_, st, v, a):
        x = lib.digest(I_, st, a[1])
        return vite(okc(x), ok(phi_val(S, form, phi_name(b, x), n, dom)), err(Opq(app('proj_err', [b, x], 'o'), ERR)))
    def ith(I_, st, v, a):
        x = lib.digest(I_, st, a[1]); i = a[2]
        good = vite(okc(x), ok(phi_at(form, phi_name(b, x), n, i, dom)), err(Opq(app('proj_err', [b, x], 'o'), ERR)))
        return vite(lt(i, n), good, err(index_err(I_, st, S, i, n)))
    S.opaque[(tag, 'project')] = project; S.opaque[(tag, 'ith')] = ith
    o = Opq(b, tag)
    o.n = n; o.okc = okc; o.form = form; o.dom = dom
    o.at = lambda x, j: phi_at(form, phi_name(b, x), n, j, dom)
    o.err = lambda x: app('proj_err', [b, x], 'o')
    return o
def index_err(I_, st, S, i, n):
    f = S.fn('Error', 'index_error')
    return I_.call_fn(st, f['key'], [i, n])
def errd(r):
    "the error a run returns, as one value; 'no error' when it never fails"
    e = errv(r.v)
    return app('no_error', [], 'o') if e is BOT else ts(lib.digest(r.I, r.st, e))
def user_input(): return Opq(oname('x'), 'input')
XO = oname('x')

def dim_term(S, nm, selfv, self_=None):
    f = S.fn(nm, 'dim', 'Space', self_=self_)
    r = S.run(f, [selfv])
    def g(x):
        if isinstance(x, Adt) and x.vname == 'Finite': return ts(x.fields[0])
        return TM.unk(getattr(x, 'why', 'dimensionality'))
    return f, r, ts(gated(r.v, g))

class Inst:
    "one basis instance with symbolic parameters: what the properties say its features are"
    def __init__(s, nm, label, selfv, input_, n, feat, okc=TRUE, sparse=None, self_=None, closure=False, assume=TRUE, err=None, pconst=None):
        s.nm, s.label, s.selfv, s.input, s.n, s.feat, s.okc, s.sparse, s.self_, s.closure, s.assume, s.err = nm, label, selfv, input_, n, feat, okc, sparse, self_, closure, assume, err
    def project(s, S):
        f = S.fn(s.nm, 'project', 'Basis', self_=s.self_)
        st = State()
        return f, S.run(f, [s.selfv, s.input(st)], st=st, pc=())
    def has_ith(s, S):
        return not s.closure
    def ith(s, S, i):
        f = S.fn(s.nm, 'ith', 'EnumerableBasis', self_=s.self_)
        st = State()
        return f, S.run(f, [s.selfv, s.input(st), i], st=st)

DM, ORD = usize('D', 'dimn'), usize('o', 'order')
def lo(d): return F('lo', d)
def hi(d): return F('hi', d)
def limits(D=DM): return Seq(D, lambda d: Tup((lo(d), hi(d))))
def struct(S, name, known):
    "a value of a public struct, from its public fields"
    a = S.adt(name); fs = [x['name'] for x in a['variants'][0]['fields']]
    if set(fs) != set(known): return None
    return Adt(a['path'], 0, a['variants'][0]['name'], [known[x] for x in fs], fs)
def ctor(S, nm, fnm, args, self_=None):
    r = S.run(S.fn(nm, fnm, self_=self_), args)
    return r
def digit(k, d, D=DM, o=ORD): return lib_digit(k, d, D, o)
def lib_digit(k, d, D, o):
    base = add(o, I(1))
    return idiv('trem', idiv('tdiv', add(k, I(1)), ipow(base, sub(sub(D, I(1)), d))), base)
def nfeats(D=DM, o=ORD): return sub(ipow(add(o, I(1)), D), I(1))

def scaled(d): return div(sub(xv(d), lo(d)), sub(hi(d), lo(d)))
def fourier_feat(coef, D=DM):
    def g(j):
        q = bv('i', 'k')
        return fn1('cos', mul(PI, sum_(D, q, mul(coef(j, q), scaled(q)))))
    return g
PI = lib.PI
def poly_feat(exp_, D=DM):
    def g(j):
        q = bv('i', 'k')
        return prod_(D, q, ipow(xv(q), exp_(j, q)))
    return g
def cheb(k, u):
    a, b = R(1), u
    if k == 0: return a
    for _ in range(k - 1): a, b = b, sub(mul(R(2), mul(u, b)), a)
    return b
def cheb_sel(dg, u):
    t = cheb(11, u)
    for k in range(10, -1, -1): t = ite(eq(dg, I(k)), cheb(k, u), t)
    return t
def cheb_feat(deg, D=DM):
    def g(j):
        q = bv('i', 'k')
        return prod_(D, q, cheb_sel(deg(j, q), sub(mul(R(2), scaled(q)), R(1))))
    return g
def with_last(n, feat, last): return lambda j: ite(lt(j, n), feat(j), last)

# ------------------------------------------------------------------ instances
def i_fourier(S):
    out = []
    v = ctor(S, 'Fourier', 'new', [ORD, limits()]).v
    dg = lambda j, d: i2r(digit(j, d))
    out.append(Inst('Fourier', 'Fourier::new', v, byval(xseq(DM)), nfeats(), fourier_feat(dg)))
    m = usize('m')
    known = {'order': ORD, 'limits': limits(), 'coefficients': Seq(m, lambda j: Seq(DM, lambda d: F('c', j, d)))}
    w = struct(S, 'Fourier', known)
    if w is not None: out.append(Inst('Fourier', 'Fourier with given coefficients', w, byval(xseq(DM)), m, fourier_feat(lambda j, d: F('c', j, d))))
    return out
def i_poly(S):
    out = []
    v = ctor(S, 'Polynomial', 'new', [DM, ORD]).v
    pf = poly_feat(lambda j, d: digit(j, d))
    out.append(Inst('Polynomial', 'Polynomial::new', v, byval(xseq(DM)), nfeats(), pf))
    w = ctor(S, 'Polynomial', 'with_zeroth', [v]).v
    out.append(Inst('Polynomial', 'Polynomial::new.with_zeroth', w, byval(xseq(DM)), add(nfeats(), I(1)), with_last(nfeats(), pf, R(1))))
    m = usize('m')
    ex = lambda j, d: F('e', j, d, sort='i', dom='order')
    known = {'order': ORD, 'exponents': Seq(m, lambda j: Seq(DM, lambda d: ex(j, d)))}
    u = struct(S, 'Polynomial', known)
    if u is not None: out.append(Inst('Polynomial', 'Polynomial with given exponents', u, byval(xseq(DM)), m, poly_feat(ex)))
    return out
def i_cheb(S):
    out = []
    lowo = le(ORD, I(11))
    r = ctor(S, 'Chebyshev', 'new', [ORD, limits()])
    cf = cheb_feat(lambda j, d: digit(j, d))
    out.append(Inst('Chebyshev', 'Chebyshev::new', r.v, byval(xseq(DM)), nfeats(), cf, assume=lowo))
    w = ctor(S, 'Chebyshev', 'with_zeroth', [r.v]).v
    out.append(Inst('Chebyshev', 'Chebyshev::new.with_zeroth', w, byval(xseq(DM)), add(nfeats(), I(1)), with_last(nfeats(), cf, R(1)), assume=lowo))
    return out
def user_kernel(S, name='kern'):
    tag = 'kernel'
    S.opaque[(tag, 'kernel')] = lambda I_, st, v, a: app('kern', [v.t, lib.digest(I_, st, a[1]), lib.digest(I_, st, a[2])], 'r')
    S.opaque[(tag, 'clone')] = lambda I_, st, v, a: v
    return lambda t: Opq(t, tag)
def seqd(D, f):
    q = bv('i', 'k')
    return app('seq', [D, sum_(D, q, app('dig', [q, f(q)], 'r'))], 'o')
def i_kernel(S):
    k = user_kernel(S); m = usize('m'); D = usize('D')
    cen = lambda j, d: F('cen', j, d)
    proto = lambda j: struct(S, 'Prototype', {'centroid': Seq(D, lambda d: cen(j, d)), 'kernel': k(F('kj', j, sort='o'))})
    if proto(I(0)) is None: raise Giveup('fields of Prototype')
    v = ctor(S, 'KernelBasis', 'new', [Seq(m, proto)]).v
    feat = lambda j: app('kern', [F('kj', j, sort='o'), seqd(D, xv), seqd(D, lambda d: cen(j, d))], 'r')
    return [Inst('KernelBasis', 'KernelBasis::new', v, byref(xseq(D)), m, feat)]
def i_tile(S):
    hb = Opq(oname('hasher_builder'), 'hasher_builder')
    T_ = usize('tilings'); M = usize('memory', 'pos'); D = usize('D')
    v = ctor(S, 'TileCoding', 'new', [hb, T_, M]).v
    def feat(j):
        t = bv('i', 't')
        return ite(any_(T_, t, eq(tile_index(hb, T_, M, D, t), j)), R(1), R(0))
    return [Inst('TileCoding', 'TileCoding::new', v, byref(xseq(D)), M, feat, sparse=True, assume=lt(I(0), T_))]
def tile_index(hb, T_, M, D, t):
    h = app('hash_write_isize', [app('hasher', [hb.t], 'o'), t], 'o')
    i = bv('i', 'i'); acc = bv('o', 'acc')
    s_i = fn1('floor', mul(xv(i), i2r(T_)))
    s_i = mk('r2i', (s_i,), 'i')
    co = idiv('ediv', add(s_i, mul(t, add(mul(I(2), i), I(1)))), T_)
    h = TM.mkfold(D, i, [acc], [h], [app('hash_write_isize', [acc, co], 'o')], 0)
    return idiv('trem', app('hash_finish', [h], 'i', 'hash'), M)
def eqp(d): return Adt('spaces::real::Equipartition', 0, 'Equipartition', (F('elb', d), F('eub', d), F('en', d, sort='i', dom='pos')), ('lb', 'ub', 'n_partitions'))
def space_of(D, el): return Adt('spaces::product::ProductSpace', 0, 'ProductSpace', (Seq(D, el),), ('0',))
def cell(d): return app('cell', [F('elb', d), F('eub', d), xv(d), F('en', d, sort='i', dom='pos')], 'i', 'lt')
def grid_index(D):
    # row-major, first dimension slowest
    i, j = bv('i', 'i'), bv('i', 'j')
    w = prod_(sub(sub(D, I(1)), i), j, F('en', add(add(i, I(1)), j), sort='i', dom='pos'))
    return sum_(D, i, mul(cell(i), w))
def grid_count(D):
    j = bv('i', 'j')
    return prod_(D, j, F('en', j, sort='i', dom='pos'))
def i_grid(S):
    D = DM
    v = ctor(S, 'UniformGrid', 'new', [space_of(D, eqp)]).v
    g = grid_index(D)
    return [Inst('UniformGrid', 'UniformGrid::new', v, byref(xseq(D)), grid_count(D), lambda j: ite(eq(g, j), R(1), R(0)), sparse=True, assume=lt(I(0), D))]
def i_const(S):
    m = usize('m')
    out = []
    b = struct(S, 'Bias', {'0': F('b')})
    if b is not None: out.append(Inst('Bias', 'Bias', b, lambda st: user_input(), I(1), lambda j: F('b')))
    u = ctor(S, 'Bias', 'unit', []).v
    out.append(Inst('Bias', 'Bias::unit', u, lambda st: user_input(), I(1), lambda j: R(1)))
    nm = oname('con')
    v = ctor(S, 'Fixed', 'dense', [Seq(m, lambda j: app('dv', [nm, j], 'r', 'act'))], self_=self_is('Vec<f64>')).v
    out.append(Inst('Fixed', 'Fixed::dense', v, lambda st: user_input(), m, lambda j: app('dv', [nm, j], 'r', 'act'), self_=self_is('Vec<f64>')))
    k = usize('k')
    v = ctor(S, 'Fixed', 'sparse', [m, MapV(m, lambda j: app('mem', [nm, j, m], 'b'), lambda j: UNIT, kind='set')], self_=self_is('HashSet')).v
    out.append(Inst('Fixed', 'Fixed::sparse', v, lambda st: user_input(), m, lambda j: ite(app('mem', [nm, j, m], 'b'), R(1), R(0)), sparse=True, self_=self_is('HashSet')))
    v = ctor(S, 'Fixed', 'sparse', [m, Seq(k, lambda j: app('af', [j, m], 'i', 'lt'))], self_=self_is('HashSet')).v
    q = bv('i', 'k')
    out.append(Inst('Fixed', 'Fixed::sparse of a list', v, lambda st: user_input(), m, lambda j: ite(any_(k, q, eq(app('af', [q, m], 'i', 'lt'), j)), R(1), R(0)), sparse=True, self_=self_is('HashSet'), assume=lt(I(0), m)))
    return out
def user_closure(S, form):
    b = oname('clo'); n = app('clo_n', [], 'i')
    okc = lambda x: app('clo_ok', [b, x], 'b')
    def f(I_, st, args):
        x = lib.digest(I_, st, args[0])
        return vite(okc(x), ok(phi_val(S, form, phi_name(b, x), n)), err(Opq(app('clo_err', [b, x], 'o'), ERR)))
    u = UFn('clo', f); u.n = n; u.okc = okc
    u.at = lambda x, j: phi_at(form, phi_name(b, x), n, j); u.err = lambda x: app('clo_err', [b, x], 'o')
    return u
def i_closure(S):
    out = []
    for form in ('dense', 'sparse'):
        u = user_closure(S, form); m = usize('m')
        v = ctor(S, 'Closure', 'new', [m, u]).v
        i = Inst('Closure', 'Closure::new (%s)' % form, v, lambda st: user_input(), m, lambda j, u=u: u.at(XO, j), okc=u.okc(XO), closure=True, sparse=form == 'sparse', err=u.err(XO))
        i.np = u.n
        out.append(i)
    return out
def i_stack(S):
    out = []
    for f1 in ('dense', 'sparse'):
        for f2 in ('dense', 'sparse'):
            b1, b2 = user_basis(S, 'b1_' + f1, f1), user_basis(S, 'b2_' + f2, f2)
            v = ctor(S, 'Stack', 'new', [b1, b2]).v
            feat = lambda j, b1=b1, b2=b2: ite(lt(j, b1.n), b1.at(XO, j), b2.at(XO, sub(j, b1.n)))
            i = Inst('Stack', 'Stack::new (%s, %s)' % (f1, f2), v, lambda st: user_input(), add(b1.n, b2.n), feat,
                     okc=and_(b1.okc(XO), b2.okc(XO)), err=ite(b1.okc(XO), b2.err(XO), b1.err(XO)), sparse=(f1 == f2 == 'sparse'))
            i.b1, i.b2 = b1, b2
            i.err2 = ite(b2.okc(XO), b1.err(XO), b2.err(XO))      # both fail: either error will do
            out.append(i)
    return out
def norms(S, b):
    q = lambda: bv('i', 'k')
    def l0():
        r = S.run(S.fn('Features', 'n_active'), [phi_val(S, b.form, phi_name(b.t, XO), b.n, b.dom)])
        return i2r(ts(r.v))
    def l1():
        k = q(); return sum_(b.n, k, fn1('abs', b.at(XO, k)))
    def l2():
        k = q(); x = b.at(XO, k); return fn1('sqrt', sum_(b.n, k, mul(x, x)))
    def linf():
        k = q(); return maxr(b.n, k, TRUE, fn1('abs', b.at(XO, k)), R(0))
    return {'L0Normaliser': l0, 'L1Normaliser': l1, 'L2Normaliser': l2, 'LinfNormaliser': linf}
NORMS = ('L0Normaliser', 'L1Normaliser', 'L2Normaliser', 'LinfNormaliser')
def i_norm(S):
    out = []
    for form in ('dense', 'sparse'):
        b = user_basis(S, 'b_' + form, form)
        ns = norms(S, b)
        for nm in NORMS:
            v = ctor(S, nm, 'new', [b]).v
            def feat(j, nm=nm, b=b, ns=ns):
                z = ns[nm]()
                return ite(eq(z, R(0)), R(0), div(b.at(XO, j), z))
            i = Inst(nm, '%s::new (%s)' % (nm, form), v, lambda st: user_input(), b.n, feat, okc=b.okc(XO), err=b.err(XO), sparse=form == 'sparse')
            i.b = b
            out.append(i)
    return out
ALL = (i_fourier, i_poly, i_cheb, i_kernel, i_tile, i_grid, i_const, i_closure, i_stack, i_norm)

def i_default(S):
    "a basis of the user's own that relies on the provided `ith` and `n_features`"
    out = []
    for form in ('dense', 'sparse'):
        b = user_basis(S, 'own_' + form, form)
        i = Inst(None, 'provided method (%s)' % form, b, lambda st: user_input(), b.n, lambda j, b=b: b.at(XO, j), okc=b.okc(XO), err=b.err(XO), sparse=form == 'sparse')
        i.b = b
        out.append(i)
    return out
def provided(S, name, trait):
    c = [f for f in S.D['fns'] if (f.get('intrait') or '').split('::')[-1] == trait and f.get('name') == name and 'body' in f and not f.get('trait')]
    if not c: raise Missing('provided method %s of %s' % (name, trait))
    return c[0]
def each(S, groups, fn):
    for g in groups:
        box = []
        S.guard(g.__name__[2:], lambda: box.extend(g(S)))
        for i in box: S.guard(i.label, lambda: fn(i))

# ------------------------------------------------------------------ properties
def B01(S):
    def go(i):
        f, r, n = dim_term(S, i.nm, i.selfv, i.self_)
        S.eq('%s: declared dimensionality' % i.label, f, [(n, i.n)], i.assume, r)
        if i.closure: return
        fp, p = i.project(S)
        v = okv(p.v)
        A = and_(i.assume, i.okc)
        S.eq('%s: projection size is the declared dimensionality' % i.label, fp, [(okp(p.v), TRUE), (nfeat(p.I, p.st, v), n)], A, p)
        j = usize('j')
        S.eq('%s: stored indices lie below the dimensionality' % i.label, fp, [(and_(member(p.I, p.st, v, j), le(n, j)), FALSE)], A)
        nf = S.fn(i.nm, 'n_features', 'Basis', self_=i.self_)
        r2 = S.run(nf, [i.selfv])
        S.eq('%s: n_features is the declared dimensionality' % i.label, nf, [(ts(r2.v), n)], i.assume, r2)
    each(S, ALL, go)
    def own(i):
        nf = provided(S, 'n_features', 'Basis')
        r = S.run(nf, [i.selfv])
        S.eq('n_features, %s: the declared dimensionality' % i.label, nf, [(ts(r.v), i.n)], i.assume, r)
    each(S, (i_default,), own)

def B02(S):
    def go(i):
        if i.closure: return
        f, r, n = dim_term(S, i.nm, i.selfv, i.self_)
        k = idx('i', i.n)
        fp, p = i.project(S); fi, q = i.ith(S, k)
        A = and_(i.assume, i.okc, lt(k, i.n))
        S.eq('%s: ith is the entry of the projection' % i.label, fi, [(okp(q.v), TRUE), (ts(okv(q.v)), act(p.I, p.st, okv(p.v), k))], A, q)
        if i.err is not None and i.nm in NORMS:
            S.eq('%s: ith fails like the projection' % i.label, fi, [(okp(q.v), FALSE), (errd(q), i.err)], and_(i.assume, not_(i.okc), lt(k, i.n)), alts=None)
    each(S, ALL, go)
    def own(i):
        f = provided(S, 'ith', 'EnumerableBasis'); k = idx('i', i.n)
        st = State(); q = S.run(f, [i.selfv, i.input(st), k], st=st)
        S.eq('ith, %s: the entry of the projection' % i.label, f, [(okp(q.v), TRUE), (ts(okv(q.v)), i.feat(k))], and_(i.assume, i.okc, lt(k, i.n)), q)
        S.eq('ith, %s: fails like the projection' % i.label, f, [(okp(q.v), FALSE), (errd(q), i.err)], and_(i.assume, not_(i.okc), lt(k, i.n)), q)
    each(S, (i_default,), own)

def B03(S):
    fe = S.fn('Error', 'index_error')
    def go(i):
        if i.closure: return
        k = add(i.n, usize('e'))
        fi, q = i.ith(S, k)
        A = i.assume
        S.eq('%s: index out of range is an error' % i.label, fi, [(okp(q.v), FALSE)], A, q)
        I_ = S.interp(); st = State()
        e = I_.call_fn(st, fe['key'], [k, i.n])
        S.eq('%s: the error carries index and dimensionality' % i.label, fi, [(errd(q), ts(lib.digest(I_, st, e)))], A)
    each(S, ALL, go)
    def own(i):
        f = provided(S, 'ith', 'EnumerableBasis'); k = add(i.n, usize('e'))
        st = State(); q = S.run(f, [i.selfv, i.input(st), k], st=st)
        S.eq('ith, %s: index out of range is an error' % i.label, f, [(okp(q.v), FALSE)], i.assume, q)
        I_ = S.interp(); st = State()
        e = I_.call_fn(st, fe['key'], [k, i.n])
        S.eq('ith, %s: the error carries index and dimensionality' % i.label, f, [(errd(q), ts(lib.digest(I_, st, e)))], i.assume)
    each(S, (i_default,), own)
    S.guard('error value', lambda: error_value(S, fe))

def pieces(t):
    "the pieces of a string term, in order"
    if t.op == 'app' and t.args[0] == 'fmt': return [q for p in t.args[2:] for q in pieces(p)]
    return [t]
def error_value(S, fe):
    "the error an out-of-range index gives: a basis error whose text gives the index, then the dimensionality"
    i, n = usize('i'), usize('n')
    r = S.run(fe, [i, n])
    nm = 'the error names the index, then the dimensionality'
    def leaf(x):
        if isinstance(x, VIte):
            return [(and_(x.c, g), v) for g, v in leaf(x.a)] + [(and_(not_(x.c), g), v) for g, v in leaf(x.b)]
        return [(TRUE, x)]
    a = S.adt('Error'); ek = S.adt('ErrorKind')
    fields = [x['name'] for x in a['variants'][0]['fields']]
    kinds = [v['name'] for v in ek['variants']]
    if not isinstance(r.v, Adt) or 'message' not in fields or 'kind' not in fields or 'Basis' not in kinds:
        d = ts(lib.digest(r.I, r.st, r.v))
        return S.put(nm, fe, 'undecided', 'shape of the error type')
    kind, m = r.I.deref(r.st, r.v.get('kind')), r.I.deref(r.st, r.v.get('message'))
    S.eq('an index out of range is an error of the basis', fe, [(ts(gated(kind, lambda x: B(x.vname == 'Basis') if isinstance(x, Adt) else TM.unk('kind'))), TRUE)], le(n, i), r)
    for g, v in leaf(m):
        if not isinstance(v, Opq): S.put(nm, fe, 'undecided', 'message: %s' % getattr(v, 'why', type(v).__name__)); continue
        got = [p for p in pieces(v.t) if not p.args[0].startswith('str:')] if v.t.op == 'app' else [v.t]
        want = [app('arg', [i], 'o'), app('arg', [n], 'o')]
        S.put(nm, fe, 'proved' if got == want else 'violated', 'text of the error: %r' % v.t)
    fields_of = lambda k: [Adt(ek['path'], k, kinds[k], ()) if f == 'kind' else Opq(oname('message'), 'string') for f in fields]
    for k in range(len(kinds)):
        e = Adt(a['path'], 0, a['variants'][0]['name'], fields_of(k), fields)
        shown(S, e, kinds[k])
def shown(S, e, kind):
    "Display writes the whole message (and nothing but a line break after it); description is the message"
    okf = sym('formatter.ok', 'b'); msg = oname('message'); start = oname('written before')
    f = S.fn('Error', 'fmt', 'Display')
    st = State(); cell = st.new(Opq(start, 'formatter'))
    r = S.run(f, [Ref(st.new(e)), Ref(cell)], st=st)
    w = r.st.cells.get(cell)
    nm = 'displaying an error writes its message (%s)' % kind
    t = ts(lib.digest(r.I, r.st, w))
    want = [lib.text_of([start, msg]), lib.text_of([start, msg, '\n'])]
    S.eq(nm, f, [(t, want[1]), (okp(r.v), TRUE)], okf, r, alts=[[(t, want[0]), (okp(r.v), TRUE)]])
    S.eq('a failure to write is returned (%s)' % kind, f, [(okp(r.v), FALSE)], not_(okf), r)
    try: d = S.fn('Error', 'description', 'Error')
    except Exception: return
    r = S.run(d, [e])
    S.eq('description is the message (%s)' % kind, d, [(ts(lib.digest(r.I, r.st, r.v)), msg)], TRUE, r)

def inner_error(S, i, fp, p):
    if i.err is None: return
    ob = lambda e: [(okp(p.v), FALSE), (errd(p), e)]
    S.eq('%s: inner errors are returned' % i.label, fp, ob(i.err), and_(i.assume, not_(i.okc)), p, alts=[ob(i.err2)] if hasattr(i, 'err2') else None)
def inner_errors(S):
    "combinators over a failing basis: the error of the basis comes out of project and of ith"
    def go(i):
        fp, p = i.project(S)
        inner_error(S, i, fp, p)
        if i.closure or hasattr(i, 'b1'): return
        j = idx('j', i.n)
        fi, q = i.ith(S, j)
        S.eq('%s: single feature, inner errors are returned' % i.label, fi, [(okp(q.v), FALSE), (errd(q), i.err)], and_(i.assume, not_(i.okc), lt(j, i.n)), q)
    each(S, (i_closure, i_stack, i_norm), go)
    each(S, (i_stack,), lambda i: owner_error(S, i))
def owner_error(S, i):
    k = usize('i')
    fi, q = i.ith(S, k)
    S.eq('%s: failure of the owning basis is returned' % i.label, fi, [(okp(q.v), FALSE), (errd(q), ite(lt(k, i.b1.n), i.b1.err(XO), i.b2.err(XO)))],
         and_(lt(k, i.n), not_(ite(lt(k, i.b1.n), i.b1.okc(XO), i.b2.okc(XO)))))
def formula(S, groups, what):
    def go(i):
        fp, p = i.project(S)
        v = okv(p.v); A = and_(i.assume, i.okc)
        j = idx('j', i.n)
        n_ = getattr(i, 'np', i.n)
        S.eq('%s: %s' % (i.label, what), fp, [(okp(p.v), TRUE), (act(p.I, p.st, v, j), i.feat(j))], and_(A, lt(j, i.n)), p)
        S.eq('%s: size' % i.label, fp, [(nfeat(p.I, p.st, v), n_)], A)
        if i.sparse: S.eq('%s: stays sparse' % i.label, fp, [(is_sparse(v), TRUE)], A)
        inner_error(S, i, fp, p)
        if not i.closure:
            fi, q = i.ith(S, j)
            S.eq('%s: single feature, %s' % (i.label, what), fi, [(okp(q.v), TRUE), (ts(okv(q.v)), i.feat(j))], and_(A, lt(j, i.n)), q)
    each(S, groups, go)

def B05(S):
    formula(S, (i_stack,), 'concatenation')
    def go(i):
        f, r, n = dim_term(S, i.nm, i.selfv, i.self_)
        S.eq('%s: dimensionality' % i.label, f, [(n, i.n)], TRUE, r)
        owner_error(S, i)
    each(S, (i_stack,), go)
    def comb():
        b = user_basis(S, 'b1_dense', 'dense'); c = user_basis(S, 'b2_sparse', 'sparse')
        f = S.fn(None, 'stack', pred=lambda f: (f.get('intrait') or '').endswith('Combinators'))
        r = S.run(f, [b, c]); w = ctor(S, 'Stack', 'new', [b, c])
        S.eq('stack combinator', f, [(ts(lib.digest(r.I, r.st, r.v)), ts(lib.digest(w.I, w.st, w.v)))], run=r)
        f = S.fn(None, 'with_bias', pred=lambda f: (f.get('intrait') or '').endswith('Combinators'))
        r = S.run(f, [b]); w = ctor(S, 'Stack', 'new', [b, ctor(S, 'Bias', 'unit', []).v])
        S.eq('bias combinator', f, [(ts(lib.digest(r.I, r.st, r.v)), ts(lib.digest(w.I, w.st, w.v)))], run=r)
        u = ctor(S, 'Bias', 'unit', []).v
        fp = S.fn('Stack', 'project', 'Basis')
        p = S.run(fp, [r.v, user_input()])
        j = idx('j', add(b.n, I(1)))
        S.eq('biased basis: constant after the basis', fp, [(act(p.I, p.st, okv(p.v), j), ite(lt(j, b.n), b.at(XO, j), R(1)))], b.okc(XO), p)
    S.guard('combinators', comb)

def comb_norm(S):
    for nm, cn in zip(NORMS, ('normalise_l0', 'normalise_l1', 'normalise_l2', 'normalise_linf')):
        def go():
            b = user_basis(S, 'b_dense', 'dense')
            f = S.fn(None, cn, pred=lambda f: (f.get('intrait') or '').endswith('Combinators'))
            r = S.run(f, [b]); w = ctor(S, nm, 'new', [b])
            S.eq('%s combinator' % cn, f, [(ts(lib.digest(r.I, r.st, r.v)), ts(lib.digest(w.I, w.st, w.v)))], run=r)
        S.guard(cn, go)
def B06(S):
    formula(S, (i_norm,), 'divided by the norm')
    comb_norm(S)
def B07(S):
    formula(S, (i_fourier,), 'cosine of the rescaled input')
    from_space(S, 'Fourier')
def interval(d): return Adt('spaces::real::Interval', 0, 'Interval', (some(lo(d)), some(hi(d))), ('lb', 'ub'))
def from_space(S, nm):
    def go():
        f = S.fn(nm, 'from_space')
        r = S.run(f, [ORD, space_of(DM, interval)])
        w = ctor(S, nm, 'new', [ORD, limits()])
        j = idx('j', nfeats())
        pr = lambda v: S.run(S.fn(nm, 'project', 'Basis'), [v, xseq(DM)])
        a, b = pr(r.v), pr(w.v)
        A = le(ORD, I(11)) if nm == 'Chebyshev' else TRUE
        S.eq('%s::from_space: limits of the space in order' % nm, f, [(nfeat(a.I, a.st, okv(a.v)), nfeat(b.I, b.st, okv(b.v))), (act(a.I, a.st, okv(a.v), j), act(b.I, b.st, okv(b.v), j))], and_(A, lt(j, nfeats())), r)
    S.guard('from_space', go)
def B08(S): formula(S, (i_poly,), 'product of powers')
def B09(S):
    formula(S, (i_cheb,), 'product of Chebyshev polynomials')
    from_space(S, 'Chebyshev')
    def refuse():
        f = S.fn('Chebyshev', 'new')
        r = S.run(f, [add(I(12), usize('o')), limits()])
        S.eq('unsupported orders are refused', f, [(or_(*[c for c, si, w in r.panics]), TRUE)])
        r = S.run(f, [ORD, limits()])
        S.eq('supported orders are accepted', f, [(TRUE, TRUE)], le(ORD, I(11)), r)
    S.guard('orders', refuse)
    def each_degree():
        "every hard-coded polynomial, on its own"
        fp, fi = S.fn('Chebyshev', 'project', 'Basis'), S.fn('Chebyshev', 'ith', 'EnumerableBasis')
        u = sub(mul(R(2), scaled(I(0))), R(1))
        for o in range(1, 12):
            v = ctor(S, 'Chebyshev', 'new', [I(o), limits(I(1))]).v
            p = S.run(fp, [v, xseq(I(1))])
            for k in (range(1, 12) if o == 11 else (o,)):
                S.eq('degree %d of order %d in one dimension' % (k, o), fp, [(act(p.I, p.st, okv(p.v), I(k - 1)), cheb(k, u))], run=p)
                q = S.run(fi, [v, xseq(I(1)), I(k - 1)])
                S.eq('degree %d of order %d in one dimension: single feature' % (k, o), fi, [(ts(okv(q.v)), cheb(k, u))], run=q)
    S.guard('degrees', each_degree)

# ------------------------------------------------------------------ kernels
VAR, POW = F('variance'), F('power')
def k_exp(r): return mul(VAR, fn1('exp', neg(r)))
def k_m32(r):
    s = mul(fn1('sqrt', R(3)), r); return mul(VAR, add(R(1), s), fn1('exp', neg(s)))
def k_m52(r):
    s = mul(fn1('sqrt', R(5)), r); return mul(VAR, add(R(1), s, mul(R(Fraction(5, 3)), r, r)), fn1('exp', neg(s)))
def k_eq(r): return mul(VAR, fn1('exp', mul(R(Fraction(-1, 2)), r, r)))
def k_cos(r): return mul(VAR, fn1('cos', r))
def k_rq(r): return mul(VAR, fn1('exp', neg(mul(POW, fn1('ln', add(R(1), div(mul(r, r), R(2))))))))
KERNELS = (('Exponential', k_exp), ('Matern32', k_m32), ('Matern52', k_m52), ('ExpQuad', k_eq), ('Cosine', k_cos), ('RationalQuadratic', k_rq))
def kernel_val(S, nm, ls):
    f = S.fn(nm, 'new')
    args = [VAR, ls] + ([POW] if nm == 'RationalQuadratic' else [])
    return S.run(f, args).v
def radius(D, l, x='x', y='y'):
    q = bv('i', 'k')
    d = div(sub(xv(q, x), xv(q, y)), l(q))
    return fn1('sqrt', sum_(D, q, mul(d, d)))
def ls_seq(n): return Seq(n, lambda d: F('ls', d, dom='unit'))
def B10(S):
    for nm, form in KERNELS:
        def go():
            D = usize('D', 'dimn')
            for f in S.fns(nm, 'kernel', 'Kernel'):
                arg = S.targ(f, 1)
                if arg == 'f64':
                    v = kernel_val(S, nm, ls_seq(I(1)))
                    r = S.run(f, [v, F('x'), F('y')])
                    S.eq('%s of two numbers' % nm, f, [(ts(r.v), form(div(fn1('abs', sub(F('x'), F('y'))), F('ls', I(0), dom='unit'))))], run=r)
                    L = usize('L', 'pos')      # whatever number of lengthscales, the first is the one of the only coordinate
                    r = S.run(f, [kernel_val(S, nm, ls_seq(L)), F('x'), F('y')])
                    S.eq('%s of two numbers, several lengthscales' % nm, f, [(ts(r.v), form(div(fn1('abs', sub(F('x'), F('y'))), F('ls', I(0), dom='unit'))))], run=r)
                    continue
                L = usize('L', 'pos')
                for lbl, n, l in (('one lengthscale per coordinate', D, lambda d: F('ls', d, dom='unit')), ('a single lengthscale', I(1), lambda d: F('ls', I(0), dom='unit')),
                                  ('lengthscales taken in turn', L, lambda d: F('ls', TM.idiv('trem', d, L), dom='unit'))):
                    v = kernel_val(S, nm, ls_seq(n))
                    r = S.run(f, [v, xseq(D, 'x'), xseq(D, 'y')])
                    S.eq('%s of two %s, %s' % (nm, 'vectors' if 'Vec' in arg else 'slices', lbl), f, [(ts(r.v), form(radius(D, l)))], lt(I(0), D), r)
                    # zero distance
                    r = S.run(f, [v, xseq(D, 'x'), xseq(D, 'x')])
                    S.eq('%s of two equal %s is the variance (%s)' % (nm, 'vectors' if 'Vec' in arg else 'slices', lbl), f, [(ts(r.v), VAR)], lt(I(0), D), r)
            kinds = {S.targ(f, 1) for f in S.fns(nm, 'kernel', 'Kernel')}
            if not any(k == 'f64' for k in kinds) or not any('[f64]' in k for k in kinds) or not any('Vec' in k for k in kinds):
                S.put('%s: argument forms' % nm, nm, 'violated', 'scalar, slice and vector forms expected, found %s' % sorted(kinds))
            f = S.fn(nm, 'non_ard')
            args = [VAR, F('ls', I(0), dom='unit')] if nm != 'RationalQuadratic' else [POW, VAR, F('ls', I(0), dom='unit')]
            r = S.run(f, args); w = kernel_val(S, nm, ls_seq(I(1)))
            S.eq('%s with one lengthscale' % nm, f, [(ts(lib.digest(r.I, r.st, r.v)), ts(lib.digest(r.I, r.st, w)))], run=r)
            fd = S.fn(nm, 'default', 'Default')
            r = S.run(fd, [])
            fk = [f for f in S.fns(nm, 'kernel', 'Kernel') if S.targ(f, 1) == 'f64'][0]
            q = S.run(fk, [r.v, F('x'), F('y')])
            u = fn1('abs', sub(F('x'), F('y')))
            d = form(u if nm != 'RationalQuadratic' else div(u, R(2)))
            S.eq('%s default has unit variance' % nm, fd, [(ts(q.v), TM.replace(d, {VAR: R(1), POW: R(1)}))], run=r)
        S.guard(nm, go)

def B11(S):
    formula(S, (i_grid,), 'the cell containing the input')
    def go(i):
        fp, p = i.project(S)
        v = okv(p.v); j = usize('j')
        S.eq('%s: exactly one stored index' % i.label, fp, [(member(p.I, p.st, v, j), eq(grid_index(DM), j))], i.assume)
        g = grid_index(DM)
        fi, q = i.ith(S, g)
        S.eq('%s: the cell containing the input is the active one' % i.label, fp, [(act(p.I, p.st, v, g), R(1)), (member(p.I, p.st, v, g), TRUE), (okp(q.v), TRUE), (ts(okv(q.v)), R(1))], i.assume)
        S.eq('%s: index below the number of cells' % i.label, fp, [(and_(member(p.I, p.st, v, j), le(i.n, j)), FALSE)], i.assume)
    each(S, (i_grid,), go)
def B12(S):
    formula(S, (i_tile,), 'one hashed tile per tiling')
    def go(i):
        fp, p = i.project(S)
        v = okv(p.v); j = usize('j')
        T_ = usize('tilings'); g = tile_index(Opq(oname('hasher_builder'), 'hasher_builder'), T_, usize('memory', 'pos'), usize('D'), idx('t', T_))
        fi, q = i.ith(S, g)
        S.eq('%s: the tile of each tiling is active' % i.label, fp, [(act(p.I, p.st, v, g), R(1)), (member(p.I, p.st, v, g), TRUE), (okp(q.v), TRUE), (ts(okv(q.v)), R(1))], i.assume)
        S.eq('%s: stored indices are the active tiles' % i.label, fp, [(member(p.I, p.st, v, j), eq(i.feat(j), R(1)))], i.assume)
    each(S, (i_tile,), go)
    def roomy(T_, D):
        "a memory too large for collisions to hide a wrong tile"
        hb = Opq(oname('hasher_builder'), 'hasher_builder')
        M = usize('vast_memory', 'vast')
        i = Inst('TileCoding', 'TileCoding::new', ctor(S, 'TileCoding', 'new', [hb, T_, M]).v, byref(xseq(D)), M, None, sparse=True)
        fp, p = i.project(S)
        v = okv(p.v); t = idx('t', T_); g = tile_index(hb, T_, M, D, t)
        fi, q = i.ith(S, g)
        S.eq('%s: the tile of each tiling, in a large memory' % i.label, fp, [(act(p.I, p.st, v, g), R(1)), (ts(okv(q.v)), R(1))], lt(I(0), T_), p)
        f, r, n = dim_term(S, i.nm, i.selfv, i.self_)
        S.eq('%s: declared dimensionality of a large memory' % i.label, f, [(n, M)], run=r)
    S.guard('large memory', lambda: roomy(usize('few_tilings', 'few'), usize('D')))
    S.guard('large memory', lambda: roomy(usize('tilings'), usize('few_inputs', 'few')))
def B13(S):
    formula(S, (i_const, i_closure), 'what it was given')
    def go(i):
        f, r, n = dim_term(S, i.nm, i.selfv, i.self_)
        S.eq('%s: declared dimensionality' % i.label, f, [(n, i.n)], i.assume, r)
    each(S, (i_const, i_closure), go)
def B14(S):
    "coefficient tuples of the constructed feature sets"
    def field_digits(nm, args, field, conv, A=TRUE):
        def go():
            f = S.fn(nm, 'new')
            r = S.run(f, args)
            v = r.v
            if not isinstance(v, Adt) or field not in v.fnames: return S.put('%s: feature set' % nm, f, 'undecided', 'field %s' % field)
            s = r.I.deref(r.st, v.get(field))
            k, d = idx('k', nfeats()), idx('d', DM)
            S.eq('%s: number of features' % nm, f, [(seq_n(r.I, r.st, s), nfeats())], A)
            row = r.I.deref(r.st, flat(s).at(k)) if isinstance(s, Seq) and flat(s).guard is None else Unk('feature set: %r' % s)
            S.eq('%s: one order per dimension' % nm, f, [(seq_n(r.I, r.st, row), DM)], and_(A, lt(k, nfeats())))
            S.eq('%s: the k-th tuple in lexicographic order' % nm, f, [(conv(r, row, d), ) + (digit(k, d) if nm != 'Fourier' else i2r(digit(k, d)),)], and_(A, lt(k, nfeats()), lt(d, DM)), r)
        S.guard(nm, go)
    field_digits('Fourier', [ORD, limits()], 'coefficients', lambda r, row, d: seq_at(r.I, r.st, row, d))
    field_digits('Polynomial', [DM, ORD], 'exponents', lambda r, row, d: seq_at(r.I, r.st, row, d))
    formula(S, (i_cheb,), 'degrees in lexicographic order')

def B15(S):
    formula(S, (i_kernel,), 'kernel of the prototype')
    def homog():
        k = user_kernel(S); m = usize('m'); D = usize('D')
        cen = lambda j, d: F('cen', j, d)
        kv = k(oname('K'))
        f = S.fn('KernelBasis', 'homogeneous')
        r = S.run(f, [Seq(m, lambda j: Seq(D, lambda d: cen(j, d))), kv])
        i = Inst('KernelBasis', 'KernelBasis::homogeneous', r.v, byref(xseq(D)), m, lambda j: app('kern', [oname('K'), seqd(D, xv), seqd(D, lambda d: cen(j, d))], 'r'))
        fp, p = i.project(S); j = idx('j', m)
        S.eq('homogeneous basis: the same kernel at every centroid', f, [(nfeat(p.I, p.st, okv(p.v)), m), (act(p.I, p.st, okv(p.v), j), i.feat(j))], lt(j, m), r)
    S.guard('homogeneous', homog)
    for fnm, nm, form in (('exp_quad', 'ExpQuad', k_eq), ('matern_32', 'Matern32', k_m32), ('matern_52', 'Matern52', k_m52)):
        def part():
            f = S.fn('KernelBasis', fnm, self_=self_is(nm))
            D = DM
            r = S.run(f, [space_of(D, eqp)])
            fp = S.fn('KernelBasis', 'project', 'Basis')
            st = State()
            p = S.run(fp, [r.v, Ref(st.new(xseq(D)))], st=st)
            n = grid_count(D); j = idx('j', n)
            en = lambda d: F('en', d, sort='i', dom='pos')
            w = lambda d: div(sub(F('eub', d), F('elb', d)), i2r(en(d)))
            q, q2 = bv('i', 'k'), bv('i', 'm')
            dig = idiv('trem', idiv('tdiv', j, prod_(sub(sub(D, I(1)), q), q2, en(add(add(q, I(1)), q2)))), en(q))
            c = sub(add(F('elb', q), mul(w(q), i2r(add(dig, I(1))))), div(w(q), R(2)))
            z = div(sub(xv(q), c), w(q))
            rad = fn1('sqrt', sum_(D, q, mul(z, z)))
            want = TM.replace(form(rad), {VAR: R(1)})
            S.eq('%s: one unit-variance prototype at every cell centre' % fnm, f, [(nfeat(p.I, p.st, okv(p.v)), n), (act(p.I, p.st, okv(p.v), j), want)], lt(j, n), r)
        S.guard(fnm, part)

# ------------------------------------------------------------------ B16
def B16(S):
    "cardinality: infinite for the provided bases, product for a stack, the inner one's for a normaliser"
    P = effects_prog(S)
    for f in S.D['fns']:
        if f.get('name') != 'card' or (f.get('trait') or '').split('::')[-1] != 'Space' or 'body' not in f: continue
        t = S.T[f['implself']]
        a = [a for a in S.D['adts'] if a['path'] == t.get('path')]
        if not a: continue
        S.guard('B16', lambda: card_of(S, a[0], t, f))
def effects_prog(S):
    import effects
    return effects.Prog(S.D)
def card_of(S, a, t, f):
    import spec_serde
    params = [x for x in t.get('args') or [] if isinstance(x, int) and S.T[x].get('k') == 'param']
    preds = list(f.get('preds') or []) + [p for i in S.D['impls'] if i['key'] == f.get('impl') for p in i['preds']]
    inner = [S.T[x]['s'] for x in params if any(re.match(r'^%s: .*(Space|Basis)\b' % re.escape(S.T[x]['s']), p) for p in preds)]
    fields = a['variants'][0]['fields'] if len(a['variants']) == 1 else []
    combos = [[]]
    for _ in inner: combos = [c + [k] for c in combos for k in ('finite', 'infinite')]
    for combo in combos:
        cards, made = [], {}
        for g, k in zip(inner, combo):
            nm = 'B_' + g; tag = 'basis ' + nm; n = app('card', [oname(nm)], 'i', 'pos')
            v = lib.finite(lib.CARD, n) if k == 'finite' else lib.infinite(lib.CARD)
            S.opaque[(tag, 'card')] = lambda I_, st, x, a_, v=v: v
            S.opaque[(tag, 'dim')] = lambda I_, st, x, a_, nm=nm: lib.finite(lib.DIM, app('dim', [oname(nm)], 'i'))
            made[g] = Opq(oname(nm), tag); cards.append((k, n))
        gen = {g['name']: S.T[x]['s'] for g, x in zip([g for g in a['generics'] if g['ty']], [x for x in t.get('args') or [] if isinstance(x, int)])}
        fs = []
        for fl in fields:
            ft = S.T[fl['ty']]; nm = gen.get(ft['s'], ft['s'])
            fs.append(made[nm] if nm in made else spec_serde.arbitrary(S, fl['ty'], 'fld_' + fl['name']))
        v = Adt(a['path'], 0, a['variants'][0]['name'], fs, [x['name'] for x in fields])
        r = S.run(f, [v])
        rule = '%s: cardinality%s' % (a['path'].split('::')[-1] + ('<%s>' % S.T[t['args'][0]]['s'] if len(made) == 0 and params == [] and t.get('args') else ''), ' (%s)' % ', '.join(combo) if combo else '')
        if all(k == 'finite' for k in combo) and combo:
            want = I(1)
            for _, n in cards: want = mul(want, n)
            got = ts(gated(r.v, lambda x: ts(x.fields[0]) if isinstance(x, Adt) and x.vname == 'Finite' else I(-1) if isinstance(x, Adt) else TM.unk(getattr(x, 'why', 'cardinality'))))
            S.eq(rule, f, [(got, want)], run=r)
        else:
            S.eq(rule, f, [(ts(gated(r.v, lambda x: B(x.vname == 'Infinite') if isinstance(x, Adt) else TM.unk(getattr(x, 'why', 'cardinality')))), TRUE)], run=r)
