"""F01-F08: feature vectors."""
from core import *

def N(name): return usize('n_' + name)
def fv(S, form, name, n=None, dom='act', keys=None):
    return dense(S, name, n, dom) if form == 'dense' else sparse(S, name, n, dom, keys)
FM = ('dense', 'sparse')
def negligible(t, x):
    "t says that |x| is (almost) zero"
    if t.op == 'eq': 
        a, b = t.args
        return (a is x and b.op == 'const' and b.args[0] == 0) or (b is x and a.op == 'const' and a.args[0] == 0)
    if t.op == 'lt':
        a, b = t.args
        return a is fn1('abs', x) and b.op == 'const' and b.args[0] <= Fraction(1, 1000)
    if t.op == 'not' and t.args[0].op == 'lt':
        a, b = t.args[0].args
        return b is fn1('abs', x) and a.op == 'const' and a.args[0] <= Fraction(1, 1000)
    if t.op == 'and': return any(negligible(q, x) for q in t.args)
    return False

def check_features(S, rule, f, r, v, n, spec_act, form=None, assume=TRUE, upto=None):
    "v is a feature vector of n features whose activation at j is spec_act(j)"
    j = idx('j', upto if upto is not None else n)
    ps = [(nfeat(r.I, r.st, v), n)]
    S.eq(rule + ': number of features', f, ps, assume, r)
    S.eq(rule + ': activation at every index', f, [(act(r.I, r.st, v, j), spec_act(j))], assume, r)

def expansions(S):
    "the three ways to expand, as functions of a vector"
    out = []
    out.append(('to_dense', S.fn('Features', 'to_dense'), False))
    out.append(('into_dense', S.fn('Features', 'into_dense'), True))
    for f in S.fns(name='from', trait='From'):
        if 'Features' in S.targ(f, 1) and 'SparseActivations' not in S.targ(f, 1) and not S.targ(f, 1).endswith('>') :
            out.append(('conversion to ' + S.T[f['implself']]['s'].split('<')[0].split('::')[-1], f, True))
    return out

def F01(S):
    n = N('x'); j = idx('j', n)
    # constructors
    def build():
        f = S.fn('Features', 'dense')
        r = S.run(f, [vec('x')])
        check_features(S, 'dense constructor', f, r, r.v, n, lambda j: xact('x', 'dense', n, j))
        S.holds('dense constructor: dense form', f, is_dense(r.v), run=r)
        for f in S.fns('Features', 'from_iter', 'FromIterator'):
            r = S.run(f, [vec('x')])
            check_features(S, 'collect', f, r, r.v, n, lambda j: xact('x', 'dense', n, j))
    S.guard('construction', build)
    def build2():
        # index/activation pairs: m pairs with pairwise distinct keys below dim (a permutation window)
        f = S.fn('Features', 'sparse')
        dim = N('x')
        # pairs given as a map
        r = S.run(f, [dim, smap('x', dim)])
        check_features(S, 'sparse constructor (map of pairs)', f, r, r.v, dim, lambda j: xact('x', 'sparse', dim, j))
        S.holds('sparse constructor: sparse form', f, is_sparse(r.v), run=r)
        # pairs given as a list: key k -> k (every index once), value by position
        r = S.run(f, [dim, Seq(dim, lambda k: Tup((k, app('dv', [oname('x'), k], 'r', 'act'))))])
        check_features(S, 'sparse constructor (list of pairs)', f, r, r.v, dim, lambda j: xact('x', 'dense', dim, j))
        # larger declared size than pairs: missing entries are zero
        m = usize('m')
        r = S.run(f, [add(m, N('e')), Seq(m, lambda k: Tup((k, app('dv', [oname('x'), k], 'r', 'act'))))])
        check_features(S, 'sparse constructor (fewer pairs than features)', f, r, r.v, add(m, N('e')), lambda j: ite(lt(j, m), xact('x', 'dense', m, j), R(0)))
        f = S.fn('Features', 'unitary')
        r = S.run(f, [dim, smap('x', dim, kind='set')])
        check_features(S, 'active indices', f, r, r.v, dim, lambda j: ite(app('mem', [oname('x'), j, dim], 'b'), R(1), R(0)))
        S.holds('active indices: sparse form', f, is_sparse(r.v), run=r)
        m = usize('m')
        ix = Seq(m, lambda k: app('key', [oname('x'), k, dim], 'i', 'lt'))
        r = S.run(f, [dim, ix])
        q = bv('i', 'k')
        check_features(S, 'active indices with repetitions', f, r, r.v, dim,
                       lambda j: ite(any_(m, q, eq(app('key', [oname('x'), q, dim], 'i', 'lt'), j)), R(1), R(0)), assume=lt(I(0), dim))
    S.guard('construction', build2)
    def conv():
        got = set()
        for f in S.fns('Features', 'from', 'From'):
            src = S.targ(f, 1)
            if 'SparseActivations' in src:
                r = S.run(f, [sparse_act(S, 'x', n)]); got.add('sparse')
                check_features(S, 'conversion from sparse activations', f, r, r.v, n, lambda j: xact('x', 'sparse', n, j))
            elif 'usize' in src and 'Dim' not in src:
                m = usize('m'); b = usize('b', 'pos')
                key = lambda k: app('key', [oname('x'), k, b], 'i', 'lt')
                r = S.run(f, [Seq(m, key)]); got.add('indices')
                q = bv('i', 'k'); q2 = bv('i', 'k')
                dim = maxr(m, q, TRUE, add(key(q), I(1)), I(0))
                jj = idx('j', b)
                S.eq('conversion from indices: number of features', f, [(nfeat(r.I, r.st, r.v), dim)], run=r,
                     alts=[[(nfeat(r.I, r.st, r.v), ite(eq(m, I(0)), I(0), add(maxr(m, q, TRUE, key(q), key(I(0))), I(1))))]])
                S.eq('conversion from indices: activation', f, [(act(r.I, r.st, r.v, jj), ite(any_(m, q2, eq(key(q2), jj)), R(1), R(0)))], run=r)
            else:
                r = S.run(f, [vec('x')]); got.add('dense')
                check_features(S, 'conversion from ' + src.split('<')[0].split('::')[-1], f, r, r.v, n, lambda j: xact('x', 'dense', n, j))
        for g in ('sparse', 'indices', 'dense'):
            if g not in got: S.put('conversion', 'impl From<..> for Features (%s)' % g, 'violated', 'conversion not found')
    S.guard('conversions', conv)
    def expand():
        for nm, f, byval in expansions(S):
            for form in FM:
                r = S.run(f, [fv(S, form, 'x')])
                S.eq('%s of a %s vector: length' % (nm, form), f, [(seq_n(r.I, r.st, r.v), n)], run=r)
                S.eq('%s of a %s vector: elements' % (nm, form), f, [(seq_at(r.I, r.st, r.v, j), xact('x', form, n, j))], run=r)
                if not byval: unchanged(S, '%s leaves the vector as it is' % nm, f, r, 0, form)
    S.guard('expansion', expand)

def unchanged(S, rule, f, r, i, form, name='x'):
    n = N(name); j = idx('j', n)
    v = r.arg(i)
    S.eq(rule, f, [(nfeat(r.I, r.st, v), n), (act(r.I, r.st, v, j), xact(name, form, n, j)), (is_sparse(v), B(form == 'sparse'))])

def F02(S):
    n = N('x'); j = idx('j', n)
    def q1():
        f = S.fn('Features', 'n_features')
        for form in FM:
            r = S.run(f, [fv(S, form, 'x')])
            S.eq('n_features of a %s vector' % form, f, [(ts(r.v), n)], run=r)
        for nm in ('is_dense', 'is_sparse'):
            f = S.fn('Features', nm)
            for form in FM:
                r = S.run(f, [fv(S, form, 'x')])
                S.eq('%s of a %s vector' % (nm, form), f, [(ts(r.v), B(('is_' + form) == nm))], run=r)
    S.guard('sizes', q1)
    def q2():
        f = S.fn('Features', 'get')
        for form in FM:
            r = S.run(f, [fv(S, form, 'x'), j])
            v = r.v
            val = ts(r.I.deref(r.st, somev(v)))
            S.eq('get on a %s vector: value' % form, f, [(ite(somep(v), val, R(0)), xact('x', form, n, j))], run=r)
            if form == 'dense': S.holds('get on a dense vector: always present', f, somep(v), run=r)
            unchanged(S, 'get leaves the vector as it is', f, r, 0, form)
        for f in S.fns('Features', 'index', 'Index'):
            for form in FM:
                r = S.run(f, [fv(S, form, 'x'), j])
                S.eq('indexing a %s vector' % form, f, [(ts(r.v), xact('x', form, n, j))], run=r)
        f = S.fn('SparseActivations', 'iter')
        r = S.run(f, [sparse_act(S, 'x', n)])
        s = lib.stream(r.I, r.st, r.raw)
        if isinstance(s, Stream):
            g, item = s.pull(r.st, j)
            it = item.items if isinstance(item, Tup) else (item,) * 2
            S.eq('iterating sparse activations', f, [(s.n, n), (g, app('mem', [oname('x'), j, n], 'b')), (ts(r.I.deref(r.st, it[0])), j)])
            S.eq('iterating sparse activations: values', f, [(ts(r.I.deref(r.st, it[1])), app('sv', [oname('x'), j, n], 'r', 'act'))], app('mem', [oname('x'), j, n], 'b'))
        else: S.put('iterating sparse activations', f, 'undecided', str(s))
    S.guard('reading', q2)
    def q3():
        f = S.fn('Features', 'remove')
        for form, i, sfx in [(a, b, c) for a in FM for b, c in ((idx('i', n), ''), (usize('i_any'), ' (any index)'))]:
            r = S.run(f, [fv(S, form, 'x'), i])
            v = r.arg(0); fm = form + sfx
            S.eq('remove on a %s vector: size' % fm, f, [(nfeat(r.I, r.st, v), n)], run=r)
            S.eq('remove on a %s vector: entries' % fm, f, [(act(r.I, r.st, v, j), ite(eq(i, j), R(0), xact('x', form, n, j)))], run=r)
            S.eq('remove on a %s vector: form' % fm, f, [(is_sparse(v), B(form == 'sparse'))], run=r)
    S.guard('removal', q3)
    def q4():
        f = S.fn('Features', 'n_active')
        res = {}
        for form in FM:
            r = S.run(f, [fv(S, form, 'x', dom='actz')])
            q = bv('i', 'k'); x = xact('x', form, n, q, 'actz')
            nz = sum_(n, q, ite(eq(x, R(0)), I(0), I(1)))
            alts = []
            t = ts(r.v)
            # any threshold that only discards negligible magnitudes
            cs = set()
            occurs(t, lambda z: z.op == 'const' and z.sort == 'r' and 0 < z.args[0] <= Fraction(1, 10000) and (cs.add(z) or False))
            for c in cs:
                alts.append([(t, sum_(n, q, ite(lt(c, fn1('abs', x)), I(1), I(0))))])
                alts.append([(t, sum_(n, q, ite(lt(fn1('abs', x), c), I(0), I(1))))])
            S.eq('n_active of a %s vector' % form, f, [(t, nz)], run=r, alts=alts)
            res[form] = (t, tuple(sorted(c.args[0] for c in cs)))
            unchanged2(S, 'n_active leaves the vector as it is', f, r, 0)
        if res['dense'][1] == res['sparse'][1]: S.put('n_active uses one threshold for both forms', f, 'proved', str([float(c) for c in res['dense'][1]]))
        else:
            # same contents in both forms must count alike
            r1 = S.run(f, [mixed(S, 'dense')]); r2 = S.run(f, [mixed(S, 'sparse')])
            S.eq('n_active agrees between the forms', f, [(ts(r1.v), ts(r2.v))], run=r1)
    S.guard('counting', q4)
def mixed(S, form, name='x', dom='act', keys=None):
    "one content in both forms"
    n = N(name); nm = oname(name)
    if form == 'sparse': return sparse(S, name, n, dom)
    return Adt(S.adtpath('Features'), 0, 'Dense', (arr(Seq(n, lambda j: xact(name, 'sparse', n, j, dom)), name),), ('0',))
def unchanged2(S, rule, f, r, i): pass

def weights(name, n): 
    nm = oname(name)
    return arr(Seq(n, lambda j: app('dv', [nm, j], 'r', 'any')), name)
def warray(name, j): return app('dv', [oname(name), j], 'r', 'any')

def F03(S):
    n = N('x'); q = bv('i', 'k'); q2 = bv('i', 'k')
    def s1():
        fs = [S.fn('Features', 'dot')] + [f for f in S.fns('Features', 'dot', 'Dot') if not S.targ(f, 1).endswith('::Features')]
        for f in fs:
            for form in FM:
                r = S.run(f, [fv(S, form, 'x'), weights('w', n)])
                S.eq('dot product of a %s vector with weights' % form, f, [(ts(r.v), sum_(n, q, mul(xact('x', form, n, q), warray('w', q))))], run=r)
        f = [f for f in S.fns('Features', 'dot', 'Dot') if S.targ(f, 1).endswith('::Features')]
        if not f: raise Missing('Dot<Features> for Features')
        f = f[0]
        for a in FM:
            for b in FM:
                r = S.run(f, [fv(S, a, 'x'), fv(S, b, 'y', n)])
                S.eq('dot product %s . %s' % (a, b), f, [(ts(r.v), sum_(n, q, mul(xact('x', a, n, q), xact('y', b, n, q))))], run=r)
    S.guard('dot', s1)
    def s2():
        f = S.fn('Features', 'matmul')
        nc = usize('nc'); nm = oname('W')
        M = arr(Mat(n, nc, lambda i, j: app('mv', [nm, i, j], 'r')), 'M')
        c = idx('c', nc)
        for form in FM:
            r = S.run(f, [fv(S, form, 'x'), M])
            S.eq('matrix product of a %s vector: length' % form, f, [(seq_n(r.I, r.st, r.v), nc)], run=r)
            S.eq('matrix product of a %s vector: entries' % form, f, [(seq_at(r.I, r.st, r.v, c), sum_(n, q, mul(xact('x', form, n, q), app('mv', [nm, q, c], 'r'))))], run=r)
        f = S.fn('Features', 'sum')
        for form in FM:
            r = S.run(f, [fv(S, form, 'x')])
            S.eq('sum of a %s vector' % form, f, [(ts(r.v), sum_(n, q, xact('x', form, n, q)))], run=r)
        f = S.fn('Features', 'fold')
        add_ = UFn('add', lambda I_, st, a: add(I_.scalar(st, a[0]), F('g', I_.scalar(st, a[1]))))
        x0 = real('x0')
        r = S.run(f, [fv(S, 'dense', 'x'), x0, add_])
        S.eq('fold of a dense vector', f, [(ts(r.v), add(x0, sum_(n, q, F('g', xact('x', 'dense', n, q)))))], run=r)
        r = S.run(f, [fv(S, 'sparse', 'x'), x0, add_])
        S.eq('fold of a sparse vector (active features)', f, [(ts(r.v), add(x0, sum_(n, q, ite(app('mem', [oname('x'), q, n], 'b'), F('g', xact('x', 'sparse', n, q)), R(0)))))], run=r,
             alts=[[(ts(r.v), add(x0, sum_(n, q, F('g', xact('x', 'sparse', n, q)))))]])
    S.guard('products', s2)

def F04(S):
    n = N('x'); j = idx('j', n); al = real('alpha')
    def go():
        for nm, a in (('addto', None), ('scaled_addto', al)):
            f = S.fn('Features', nm)
            for form in FM:
                r = S.run(f, [fv(S, form, 'x')] + ([a] if a is not None else []) + [weights('w', n)])
                i = 2 if a is not None else 1
                w = r.arg(i)
                S.eq('%s of a %s vector: every weight' % (nm, form), f, [(seq_at(r.I, r.st, w, j), add(warray('w', j), mul(a if a is not None else R(1), xact('x', form, n, j))))], run=r)
                S.eq('%s of a %s vector: weight count' % (nm, form), f, [(seq_n(r.I, r.st, w), n)], run=r)
                unchanged(S, '%s leaves the vector as it is' % nm, f, r, 0, form)
    S.guard('accumulation', go)

def F05(S):
    n = N('x'); j = idx('j', n)
    f0 = F('f', R(0))
    def go():
        for nm in ('map', 'map_into', 'map_inplace'):
            f = S.fn('Features', nm)
            for form in FM:
                r = S.run(f, [fv(S, form, 'x'), ufn('f')])
                v = r.arg(0) if nm == 'map_inplace' else r.v
                sp = is_sparse(v)
                spec = F('f', xact('x', form, n, j))
                if form == 'sparse':
                    spec = ite(and_(sp, not_(app('mem', [oname('x'), j, n], 'b'))), R(0), spec) if not has_unk(sp) else spec
                S.eq('%s of a %s vector: size' % (nm, form), f, [(nfeat(r.I, r.st, v), n)], run=r)
                S.eq('%s of a %s vector: every feature' % (nm, form), f, [(act(r.I, r.st, v, j), spec)], run=r)
                if form == 'dense': S.holds('%s of a dense vector stays dense' % nm, f, is_dense(v), run=r)
                elif negligible(sp, f0): S.put('%s stays sparse only if zero maps to zero' % nm, f, 'proved', show(sp))
                else: S.eq('%s stays sparse only if zero maps to zero' % nm, f, [(sp, FALSE)], lt(R('0.01'), fn1('abs', f0)), run=r)
                if nm == 'map': unchanged(S, 'map leaves the vector as it is', f, r, 0, form)
    S.guard('mapping', go)
    def forms():
        for nm, form in (('map_dense', 'dense'), ('map_sparse', 'sparse')):
            f = S.fn('Features', nm)
            for fm in FM:
                r = S.run(f, [fv(S, fm, 'x'), ufn('F')])
                v = r.v
                S.eq('%s applies to %s vectors: %s' % (nm, form, fm), f, [(somep(v), B(fm == form))], run=r)
                if fm == form:
                    S.eq('%s runs the function on the whole content' % nm, f, [(ts(r.I.deref(r.st, somev(v))), F('F', content(S, r, fm)))], run=r)
        f = S.fn('Features', 'map_either')
        for fm in FM:
            r = S.run(f, [fv(S, fm, 'x'), ufn('FD'), ufn('FS')])
            S.eq('map_either of a %s vector' % fm, f, [(ts(r.v), F('FD' if fm == 'dense' else 'FS', content(S, r, fm)))], run=r)
    S.guard('form-specific mappings', forms)
def content(S, r, form):
    return lib.digest(r.I, r.st, vec('x') if form == 'dense' else sparse_act(S, 'x', N('x')))

def F06(S):
    nx, ny = N('x'), N('y')
    def go():
        for nm in ('merge', 'merge_into', 'merge_inplace'):
            f = S.fn('Features', nm)
            for a in FM:
                for b in FM:
                    m = nx if a == b == 'dense' else max2(nx, ny)
                    y = fv(S, b, 'y', nx if a == b == 'dense' else ny)
                    r = S.run(f, [fv(S, a, 'x'), y, ufn('f')])
                    v = r.arg(0) if nm == 'merge_inplace' else r.v
                    yn = nx if a == b == 'dense' else ny
                    xa = lambda j: ite(lt(j, nx), xact('x', a, nx, j), R(0))
                    ya = lambda j: ite(lt(j, yn), xact('y', b, yn, j), R(0))
                    j = idx('j', m)
                    sp = is_sparse(v)
                    spec = F('f', xa(j), ya(j))
                    lab = '%s %s with %s' % (nm, a, b)
                    if a == b == 'sparse' and not has_unk(sp):
                        mem = or_(app('mem', [oname('x'), j, nx], 'b'), app('mem', [oname('y'), j, ny], 'b'))
                        spec = ite(and_(sp, not_(mem)), R(0), spec)
                        f00 = F('f', R(0), R(0))
                        if negligible(sp, f00): S.put(lab + ': stays sparse only if zeros merge to zero', f, 'proved', show(sp))
                        else: S.eq(lab + ': stays sparse only if zeros merge to zero', f, [(sp, FALSE)], lt(R('0.01'), fn1('abs', f00)), run=r)
                    S.eq(lab + ': size', f, [(nfeat(r.I, r.st, v), m)], run=r)
                    S.eq(lab + ': every index', f, [(act(r.I, r.st, v, j), spec)], run=r)
                    if nm == 'merge': unchanged(S, lab + ': first operand unchanged', f, r, 0, a)
                    jy = idx('j', yn)
                    if S.isref(f, 1): S.eq(lab + ': second operand unchanged', f, [(act(r.I, r.st, r.arg(1), jy), xact('y', b, yn, jy))])
    S.guard('merging', go)

def F07(S):
    nx, ny = N('x'), N('y')
    def go():
        f = S.fn('Features', 'stack')
        for a in FM:
            for b in FM:
                r = S.run(f, [fv(S, a, 'x'), fv(S, b, 'y')])
                check_features(S, 'stack %s, %s' % (a, b), f, r, r.v, add(nx, ny), lambda j: ite(lt(j, nx), xact('x', a, nx, j), xact('y', b, ny, sub(j, nx))))
                if a == b == 'sparse':
                    S.holds('two sparse vectors stack to a sparse vector', f, is_sparse(r.v), run=r)
                    jj = usize('jj')
                    S.eq('stack sparse, sparse: no index beyond the size', f, [(and_(member(r.I, r.st, r.v, jj), le(add(nx, ny), jj)), FALSE)], run=r)
    S.guard('stacking', go)

def F08(S):
    nx, ny = N('x'), N('y'); q = bv('i', 'k')
    def go():
        fs = S.fns('Features', 'eq', 'PartialEq')
        if not fs: raise Missing('PartialEq for Features')
        f = fs[0]
        for a in FM:
            for b in FM:
                lab = 'equality of %s and %s' % (a, b)
                r = S.run(f, [fv(S, a, 'x'), fv(S, b, 'y')])
                S.eq(lab + ': always answers', f, [], run=r)
                diff = lambda: any_(nx, q, not_(eq(xact('x', a, nx, q), xact('y', b, ny, q))))
                S.eq(lab + ': sizes differ', f, [(ts(r.v), FALSE)], not_(eq(nx, ny)), run=r)
                # equal sizes
                r = S.run(f, [fv(S, a, 'x'), fv(S, b, 'y', nx)])
                d = any_(nx, q, not_(eq(xact('x', a, nx, q), xact('y', b, nx, q))))
                if a == b == 'sparse':
                    mx, my = app('mem', [oname('x'), q, nx], 'b'), app('mem', [oname('y'), q, nx], 'b')
                    d2 = any_(nx, q, or_(not_(eq(mx, my)), and_(mx, not_(eq(xact('x', a, nx, q), xact('y', b, nx, q))))))
                    S.eq(lab + ': equal exactly when the contents are', f, [(ts(r.v), not_(d2))], run=r, alts=[[(ts(r.v), not_(d))]])
                else:
                    S.eq(lab + ': equal exactly when the contents are', f, [(ts(r.v), not_(d))], run=r)
                # contents equal by construction, so that equality is actually exercised
                r = S.run(f, [mixed(S, a), mixed(S, b)])
                S.holds(lab + ': equal contents compare equal', f, ts(r.v), run=r)
                # one entry differs
                i0 = idx('i0', nx); dl = real('delta', 'nz')
                y = bump(S, b, i0, dl)
                r = S.run(f, [mixed(S, a), y])
                S.eq(lab + ': one differing entry', f, [(ts(r.v), FALSE)], lt(I(0), nx), run=r)
        for g in S.fns('Features', 'ne', 'PartialEq'):
            for a in FM:
                for b in FM:
                    for lab, y in (('sizes may differ', fv(S, b, 'y')), ('equal sizes', fv(S, b, 'y', nx)), ('equal contents', mixed(S, b)), ('one differing entry', bump(S, b, idx('i0', nx), real('delta', 'nz')))):
                        x = fv(S, a, 'x') if 'size' in lab else mixed(S, a)
                        r, r2 = S.run(f, [x, y]), S.run(g, [x, y])
                        S.eq('%s != %s is the negation of ==: %s' % (a, b, lab), g, [(ts(r2.v), not_(ts(r.v)))], lt(I(0), nx), run=r2)
    S.guard('equality', go)
def bump(S, form, i0, dl):
    "the contents of x with a non-zero amount added at index i0 (made active there)"
    n = N('x')
    v = mixed(S, form)
    if form == 'dense':
        x = v.fields[0]
        return Adt(v.path, v.var, v.vname, (arr(Seq(n, lambda j: ite(eq(j, i0), add(x.at(j), dl), x.at(j))), 'changed'),), v.fnames)
    sa = v.fields[0]; m = sa.get('activations')
    m2 = MapV(n, lambda j: or_(eq(j, i0), m.mem(j)), lambda j: ite(eq(j, i0), add(ite(m.mem(j), m.get(j), R(0)), dl), m.get(j)))
    return Adt(v.path, v.var, v.vname, (sa.with_(sa.fnames.index('activations'), m2),), v.fnames)
