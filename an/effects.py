"""Whole-program lints over the type-checked program: discarded errors, effects of projecting/evaluating, unsafe
operations, layout sensitivity.  Shared helpers: a walker over THIR and the local call graph."""
import re
from core import *
import core, lib
import terms as TM

def walk(x):
    "all THIR nodes below x, closures not entered"
    if isinstance(x, dict):
        if 'k' in x: yield x
        for v in x.values(): yield from walk(v)
    elif isinstance(x, list):
        for v in x: yield from walk(v)
def peel(e):
    while isinstance(e, dict) and e.get('k') in ('Scope', 'Use', 'Never'): e = e['e']
    return e

class Prog:
    def __init__(s, D):
        s.D, s.T = D, D['types']
        s.fns = {f['key']: f for f in D['fns']}
        s.impls = {}
        for f in D['fns']:
            if f.get('trait'): s.impls.setdefault((f['trait'], f.get('name')), []).append(f['key'])
    def nodes(s, key):
        f = s.fns.get(key)
        return walk(f['body']) if f and 'body' in f else iter(())
    def ty(s, i): return s.T[i] if isinstance(i, int) else {'s': '', 'k': '?'}
    def callees(s, key):
        out = set()
        for n in s.nodes(key):
            if n['k'] == 'Closure': out.add(n['key'])
            elif n['k'] == 'Const' and n.get('key'): out.add(n['key'])
            c = n.get('callee')
            if not c: continue
            r = c.get('resolved')
            if r and r.get('key'): out.add(r['key'])
            elif c.get('key'):
                out.add(c['key'])
                if c.get('trait'): out |= set(s.impls.get((c['trait'], c['name']), ()))
            elif c.get('trait'): out |= set(s.impls.get((c['trait'], c['name']), ()))
        return out
    def reach(s, roots):
        seen, todo, via = set(), list(roots), {}
        while todo:
            k = todo.pop()
            if k in seen or k not in s.fns: continue
            seen.add(k)
            for c in s.callees(k):
                if c not in seen: via.setdefault(c, k); todo.append(c)
        return seen, via
    def path(s, via, k):
        out = [k]
        while out[-1] in via and len(out) < 12: out.append(via[out[-1]])
        return ' <- '.join(s.fns[x]['path'].replace('crate::', '') for x in out if x in s.fns)
    def owner(s, key):
        "the function a closure belongs to"
        f = s.fns.get(key)
        while f and f.get('kind') == 'Closure' and f.get('parent') in s.fns: f = s.fns[f['parent']]
        return f
    def calls(s, key):
        for n in s.nodes(key):
            if n.get('callee'): yield n, n['callee']

# ------------------------------------------------------------------ L03: errors that go nowhere
def is_result(P, ti):
    t = P.ty(ti)
    return t.get('k') == 'adt' and t.get('path') == 'core::result::Result'
def own_error(P, ti):
    t = P.ty(ti)
    if not is_result(P, ti): return False
    e = P.ty(t['args'][1])
    if e.get('k') == 'adt': return e['path'].startswith('crate::') and e['path'].endswith('Error')
    return False
DROPS = {'ok', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'is_ok_and'}
def dropped_errors(S):
    P = Prog(S.D)
    for f in S.D['fns']:
        if 'body' not in f or f.get('derived'): continue
        S.analysed.add(f['key'])
        bad = []
        sites = 0
        used = set()
        bound = []
        for n in walk(f['body']):
            if n['k'] in ('Var', 'Upvar'): used.add(n['var'])
        for g in S.D['fns']:
            if g.get('kind') == 'Closure' and g.get('parent') == f['key']:
                for n in walk(g.get('body')):
                    if n['k'] in ('Var', 'Upvar'): used.add(n['var'])
        for n in walk(f['body']):
            if n['k'] == 'Call' and own_error(P, n.get('ty')): sites += 1
            if n['k'] == 'Block':
                for s in n['stmts']:
                    e = peel(s.get('e') if s['k'] == 'Expr' else s.get('init'))
                    if not isinstance(e, dict) or not own_error(P, e.get('ty')): continue
                    if s['k'] == 'Expr':
                        if e['k'] not in ('Assign', 'Return'): bad.append((e.get('sp'), 'a result is discarded'))
                    elif s['pat'].get('k') == 'Wild' and e['k'] not in ('Var', 'Upvar', 'Field', 'Deref'): bad.append((s.get('sp'), 'a result is assigned to _'))
                    elif s['pat'].get('k') == 'Bind' and s['pat'].get('var') not in used: bad.append((s.get('sp'), 'a result is bound to %s and never looked at' % s['pat'].get('name')))
            c = n.get('callee')
            if c and n['k'] == 'Call' and c['path'].startswith('core::result::Result') and c['name'] in DROPS and n['args']:
                a = n['args'][0]
                if own_error(P, a.get('ty')):
                    if c['name'] == 'unwrap_or_else' : continue
                    bad.append((n.get('sp'), 'an error is dropped by %s' % c['name']))
            if c and n['k'] == 'Call' and c['path'] == 'core::mem::drop' and n['args'] and own_error(P, n['args'][0].get('ty')):
                bad.append((n.get('sp'), 'a result is dropped'))
        S.sites += sites
        if bad: S.put('no error is discarded', f, 'violated', '; '.join('%s at %s' % (w, sp) for sp, w in bad[:5]))
        elif sites: S.put('no error is discarded', f, 'proved', '%d result-returning calls' % sites)

# ------------------------------------------------------------------ B04: purity
DENY_TY = re.compile(r'^(core::cell::|std::cell::|alloc::rc::|std::rc::|core::sync::atomic|std::sync::(mutex|poison|rwlock|once|lazy|barrier|condvar|mpsc|mpmc|reentrant|nonpoison|Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|Barrier)|std::thread::)')
OKARGS_TY = re.compile(r'^(alloc::(alloc|vec|boxed|string|collections|sync|borrow)::|std::collections::|std::hash::|core::hash::|ndarray::|core::(option|result|marker|ops|num|time|mem)::|spaces::|core::any::|core::iter|core::slice|core::cmp|hashbrown::|indexmap::|ahash::|fnv::|rustc_hash::)')
def type_effects(P, ti, seen=None, depth=0):
    "constructs inside a type that carry hidden state: [(description)], and parts not known"
    seen = set() if seen is None else seen
    if ti in seen or depth > 12: return [], []
    seen.add(ti)
    t = P.ty(ti); k = t.get('k'); bad, unk_ = [], []
    def sub(i):
        b, u = type_effects(P, i, seen, depth + 1); bad.extend(b); unk_.extend(u)
    if k in ('prim', 'param', 'never', 'alias', 'fnptr', 'fndef', 'closure'): pass
    elif k == 'ref':
        if t.get('mut'): bad.append('mutable reference %s' % t['s'])
        sub(t['t'])
    elif k == 'ptr': bad.append('raw pointer %s' % t['s'])
    elif k in ('slice', 'array'): sub(t['t'])
    elif k == 'tuple':
        for i in t['args']: sub(i)
    elif k == 'dyn':
        if not ('Send' in t['s'] and 'Sync' in t['s']): bad.append('trait object %s without Send + Sync' % t['s'])
    elif k == 'adt':
        if DENY_TY.match(t['path']): bad.append('%s' % t['s'])
        elif t['path'].startswith('crate::'):
            for a in P.D['adts']:
                if a['path'] == t['path']:
                    for v in a['variants']:
                        for f in v['fields']: sub(f['ty'])
            for i in t.get('args') or []:
                if isinstance(i, int): sub(i)
        else:
            if not OKARGS_TY.match(t['path']): unk_.append(t['s'])
            for i in t.get('args') or []:
                if isinstance(i, int): sub(i)
    else: unk_.append(t['s'])
    return bad, unk_
AMBIENT = re.compile(r'^<?(std::time::(Instant|SystemTime)|std::env::|std::fs::|std::net::|std::process::(id|Command)|std::io::stdio::(stdin|Stdin)|std::thread::(current|id|ThreadId|available_parallelism|local|functions::(current|panicking|available_parallelism)|panicking)|core::panic::location::Location|std::panicking::panicking|std::panic::panicking|'
                     r'std::hash::random::(RandomState|DefaultHasher::random)|rand::|rand_core::|getrandom::|fastrand::|std::random::|core::random::|std::backtrace|core::ptr::(read|write)_volatile|core::arch::|std::os::|libc::)')
ADDRESS = re.compile(r'^(core::ptr::(eq|addr_eq|fn_addr_eq|hash)$|(alloc|std)::(rc|sync)::.*::ptr_eq$|core::ptr::(const_ptr|mut_ptr|non_null)::.*::(addr|expose_provenance|align_offset|is_aligned|is_aligned_to|to_bits|to_int)$|core::fmt::rt::Argument.*::new_pointer$|core::fmt::pointer_fmt_inner)')
ORDER = {'take', 'skip', 'nth', 'last', 'step_by', 'enumerate', 'skip_while', 'take_while', 'map_while', 'scan', 'position', 'rposition'}
HASHIT = re.compile(r'(hash_map|hash_set|hash::map|hash::set|hashbrown::(map|set))::')
PURE = (('project', ('Basis',)), ('n_features', ('Basis',)), ('ith', ('EnumerableBasis',)), ('kernel', ('Kernel',)), ('dim', ('Space',)), ('card', ('Space',)))
EVAL = ('evaluate', 'evaluate_index', 'iter', 'try_iter', 'n_outputs')
def pure_roots(S):
    out = []
    for f in S.D['fns']:
        if f.get('kind') != 'AssocFn': continue
        tr = (f.get('trait') or f.get('intrait') or '').split('::')[-1]
        if any(f.get('name') == n and tr in t for n, t in PURE): out.append(f)
        elif f.get('name') in EVAL and f.get('implself') is not None and (S.T[f['implself']].get('path') or '').endswith('LFA') and not tr: out.append(f)
        elif tr == 'Iterator' and (S.T[f['implself']].get('path') or '').startswith('crate::') if f.get('implself') is not None and tr == 'Iterator' else False: out.append(f)
    return out
def hash_ty(P, ti):
    s = P.ty(ti).get('s', '')
    t = P.ty(ti)
    def go(i, d=0):
        t = P.ty(i)
        if d > 6: return False
        if t.get('k') == 'adt':
            if HASHIT.search(t.get('path') or ''):
                last = t['path'].split('::')[-1]
                return last not in ('HashMap', 'HashSet', 'Entry')
            return any(go(a, d + 1) for a in (t.get('args') or []) if isinstance(a, int))
        if t.get('k') == 'ref': return go(t['t'], d + 1)
        return False
    return go(ti)
def deep_ptr(P, ti):
    t = P.ty(ti)
    while t.get('k') == 'ref': t = P.ty(t['t'])
    return t.get('k') == 'ptr'
def captured_init(f):
    "a once-cell is filled from run-time values"
    for n in walk(f['body']):
        c = n.get('callee')
        if not c or n['k'] != 'Call': continue
        if c['name'] in ('set', 'try_insert') and 'Once' in c['path']: return True
        if c['name'] in ('get_or_init', 'get_or_try_init', 'get_mut_or_init', 'call_once'):
            for a in n['args'][1:]:
                a = peel(a)
                if a.get('k') != 'Closure' and a.get('k') != 'FnItem': return True
                if a.get('caps'): return True
    return False
def hidden_state(S, P):
    # hidden state in models
    for a in S.D['adts']:
        bad, un = [], []
        for v in a['variants']:
            for fl in v['fields']:
                b, u = type_effects(P, fl['ty'])
                bad += ['field %s: %s' % (fl['name'], x) for x in b]; un += ['field %s: %s' % (fl['name'], x) for x in u]
        if a['path'].split('::')[-1] == 'OutputIter' : bad = [x for x in bad if 'reference' not in x]
        fk = {'path': a['path'], 'sp': a.get('sp', '')}
        if bad: S.put('model types hold no hidden, shared or thread-bound state', fk, 'violated', '; '.join(bad))
        elif un: S.put('model types hold no hidden, shared or thread-bound state', fk, 'undecided', 'not known: ' + '; '.join(un))
        else: S.put('model types hold no hidden, shared or thread-bound state', fk, 'proved', 'fields inspected')
def B04(S):
    P = Prog(S.D)
    roots = pure_roots(S)
    for f in roots:
        if (f.get('trait') or f.get('intrait') or '').endswith('Iterator'): continue
        t = P.ty((f.get('inputs') or [None])[0])
        ok_ = t.get('k') == 'ref' and not t.get('mut')
        S.put('projecting and evaluating borrow the model shared', f, 'proved' if ok_ else 'violated', 'receiver type %s' % t.get('s'))
    hidden_state(S, P)
    for im in S.D['impls']:
        tr = (im.get('trait') or '').split('::')[-1]
        if tr in ('Send', 'Sync'):
            neg = im.get('negative')
            S.put('thread-safety is derived from the fields', {'path': P.ty(im['self'])['s'], 'sp': im.get('sp', '')}, 'violated' if neg else 'undecided', 'explicit %s implementation' % tr)
    no_ambient(S, P, roots, 'no hidden input or effect in projecting and evaluating')
def no_ambient(S, P, roots, rule):
    "no function reached from the roots has a hidden input or effect"
    reach, via = P.reach([f['key'] for f in roots])
    statics = {s['path']: s for s in S.D.get('statics', [])}
    for key in sorted(reach):
        f = P.fns[key]
        if 'body' not in f or f.get('kind') not in ('Fn', 'AssocFn', 'Closure'): continue
        S.analysed.add(key)
        bad, un = [], []
        inloop = set()
        for n in walk(f['body']):
            if n['k'] == 'Loop':
                for m in walk(n['body']): inloop.add(id(m))
        rawvars = set()
        for n in walk(f['body']):
            k = n['k']
            if k == 'Static':
                s = statics.get(n['path'])
                if n.get('tls') or (s and s.get('mut')): bad.append('mutable or thread-local static %s at %s' % (n['path'], n.get('sp')))
                else:
                    t = P.ty(n.get('ty'))
                    b, u = type_effects(P, t['t'] if t.get('k') in ('ref', 'ptr') else n.get('ty'))
                    lazy = all(re.search(r'\b(LazyLock|OnceLock|Once|LazyCell|OnceCell)\b', x) for x in b)
                    if b and lazy and not captured_init(f): un.append('lazily initialised static %s' % n['path'])
                    elif b: bad.append('static %s with interior mutability at %s' % (n['path'], n.get('sp')))
                    elif s is None: un.append('static %s' % n['path'])
            elif k == 'Const':
                t = P.ty(n.get('ty'))
                if 'LocalKey' in t.get('s', ''): bad.append('thread-local %s at %s' % (n['path'], n.get('sp')))
            elif k == 'Cast':
                src, dst = P.ty(n['e'].get('ty')), P.ty(n.get('ty'))
                if src.get('k') in ('ptr', 'fndef', 'fnptr') and dst.get('k') == 'prim': bad.append('address used as a number at %s' % n.get('sp'))
            elif k == 'Binary' and any(P.ty((n.get(z) or {}).get('ty')).get('k') == 'ptr' for z in ('l', 'r')):
                bad.append('addresses compared at %s' % n.get('sp'))
            elif k in ('Assign', 'AssignOp'):
                l = peel(n['l'])
                d = l
                while isinstance(d, dict) and d.get('k') in ('Field', 'Index', 'Scope'): d = d['e']
                if isinstance(d, dict) and d.get('k') == 'Deref' and 'e' in d and P.ty(d['e'].get('ty')).get('k') == 'ptr':
                    bad.append('write through a raw pointer at %s' % n.get('sp'))
            c = n.get('callee')
            if not c: continue
            S.sites += 1
            S_ = [c['path']] + ([c['resolved']['path']] if c.get('resolved') else [])
            tyself = P.ty(c['implself'])['s'] if isinstance(c.get('implself'), int) else ''
            r = c.get('resolved') or {}
            tyself += ' ' + (P.ty(r['implself'])['s'] if isinstance(r.get('implself'), int) else '')
            if any(AMBIENT.match(p) for p in S_): bad.append('calls %s at %s' % (S_[-1], n.get('sp')))
            elif any(ADDRESS.match(p) for p in S_): bad.append('%s consults an address at %s' % (c['path'], n.get('sp')))
            elif (c.get('trait') or '').startswith(('core::cmp::', 'core::hash::', 'core::fmt::Pointer')) and n['k'] == 'Call' and n['args'] and deep_ptr(P, n['args'][0].get('ty')):
                bad.append('%s of an address at %s' % (c['name'], n.get('sp')))
            elif c['name'].startswith('transmute') and n['k'] == 'Call' and n['args'] and P.ty(n['args'][0].get('ty')).get('k') in ('ptr', 'ref', 'fnptr', 'fndef') and P.ty(n.get('ty')).get('k') in ('prim', 'array'):
                bad.append('address used as a number at %s' % n.get('sp'))
            elif 'RandomState' in tyself and c['name'] in ('default', 'new', 'build_hasher'): bad.append('draws a random hash state at %s' % n.get('sp'))
            elif re.search(r'\b(LocalKey|Instant|SystemTime)\b', tyself): bad.append('calls %s at %s' % (S_[-1], n.get('sp')))
            elif c.get('unsafe') and ('core::ptr' in c['path'] or c['name'] in ('write', 'write_bytes', 'copy_to', 'swap', 'replace', 'as_mut')) and 'ptr' in c['path']: bad.append('unsafe memory access %s at %s' % (c['path'], n.get('sp')))
            elif c.get('name') in ORDER and n['k'] == 'Call' and n['args'] and 'Iterator' in (c.get('trait') or '') and hash_ty(P, n['args'][0].get('ty')):
                bad.append('%s depends on the iteration order of a hash table at %s' % (c['name'], n.get('sp')))
            elif c.get('name') == 'next' and n['k'] == 'Call' and n['args'] and hash_ty(P, n['args'][0].get('ty')) and id(n) not in inloop:
                un.append('single next() on a hash table iterator at %s' % n.get('sp'))
        p = P.path(via, key)
        if bad: S.put(rule, f, 'violated', '%s; reached: %s' % ('; '.join(bad[:4]), p))
        elif un: S.put(rule, f, 'undecided', '; '.join(un[:4]))
        else: S.put(rule, f, 'proved', p)

# ------------------------------------------------------------------ F10: unsafe operations
UBW = ('unchecked access out of bounds', 'unwrap_unchecked of an absent value', 'uninitialised element read', 'unreachable code reached')
class Gen:
    "arbitrary arguments of a given type, without any relation between them"
    def __init__(s, S, P): s.S, s.P, s.k = S, P, 0
    def fresh(s, n): s.k += 1; return '%s%d' % (n, s.k)
    def preds(s, f):
        out = list(f.get('preds') or [])
        for im in s.P.D['impls']:
            if im['key'] == f.get('impl'): out += im.get('preds') or []
        return [re.sub(r"^for<[^>]*> ", '', p) for p in out]
    def basis(s):
        S = s.S; out = []
        for form in ('dense', 'sparse'):
            nm = s.fresh('b_' + form); b = oname(nm); tag = 'wild basis ' + nm
            n = app('dim', [b], 'i')
            def project(I_, st, v, a, b=b, form=form):
                import spec_basis as SB
                x = lib.digest(I_, st, a[1]); m = app('psize', [b, x], 'i')
                return vite(app('proj_ok', [b, x], 'b'), ok(SB.phi_val(S, form, app('phi', [b, x], 'o'), m)), err(Opq(app('proj_err', [b, x], 'o'), 'error')))
            S.opaque[(tag, 'dim')] = lambda I_, st, v, a, n=n: lib.finite(lib.DIM, n)
            S.opaque[(tag, 'n_features')] = lambda I_, st, v, a, n=n: n
            S.opaque[(tag, 'project')] = project
            S.opaque[(tag, 'ith')] = lambda I_, st, v, a, b=b: vite(app('ith_ok', [b, lib.digest(I_, st, a[1]), I_.scalar(st, a[2])], 'b'), ok(app('ith', [b, lib.digest(I_, st, a[1]), I_.scalar(st, a[2])], 'r')), err(Opq(oname('ith_err'), 'error')))
            S.opaque[(tag, 'clone')] = lambda I_, st, v, a: v
            out.append(Opq(b, tag))
        return out
    def param(s, name, preds):
        mine = [p for p in preds if p.startswith(name + ': ') or p.startswith('<%s as ' % name)]
        txt = ' ; '.join(mine)
        if re.search(r': (Fn|FnMut|FnOnce)\(', txt):
            m = re.search(r'Output == (.*)$', [p for p in mine if '::Output ==' in p][-1]) if any('::Output ==' in p for p in mine) else None
            o = m.group(1) if m else ''
            nm = s.fresh('f')
            if o == 'f64': return [ufn(nm)]
            if o in ('usize', 'u32', 'isize', 'i32'): return [ufn(nm, 'i')]
            if o == 'bool': return [ufn(nm, 'b')]
            if 'Features' in o: 
                import spec_basis as SB
                out = []
                for form in ('dense', 'sparse'):
                    out.append(UFn(nm, lambda I_, st, a, form=form: SB.phi_val(s.S, form, app(nm, [lib.digest(I_, st, x) for x in a], 'o'), app(nm + '_n', [lib.digest(I_, st, x) for x in a], 'i'))))
                return out
            if 'ArrayBase' in o or 'Vec<f64>' in o:
                return [UFn(nm, lambda I_, st, a: (lambda d: Seq(app(nm + '_n', d, 'i'), lambda k: app(nm, d + [k], 'r')))([lib.digest(I_, st, x) for x in a]))]
            return [UFn(nm, lambda I_, st, a: Opq(app(nm, [lib.digest(I_, st, x) for x in a], 'o'), 'value'))]
        if 'IntoIterator' in txt or ': std::iter::Iterator' in txt:
            n = usize(s.fresh('n')); nm = s.fresh('it')
            m = re.search(r'Item == (.*?)( ;|$)', txt); it = m.group(1) if m else 'f64'
            if 'usize, f64' in it: return [Seq(n, lambda k: Tup((app(nm, [k], 'i'), app(nm + 'v', [k], 'r'))))]
            if it.strip('&') in ('usize',): return [Seq(n, lambda k: app(nm, [k], 'i'))]
            return [Seq(n, lambda k: app(nm, [k], 'r'))]
        if 'Basis<' in txt or 'Space' in txt: return s.basis()
        if 'Kernel<' in txt:
            import spec_basis as SB
            return [SB.user_kernel(s.S)(oname(s.fresh('kern')))]
        if 'Optimiser' in txt:
            import spec_lfa as SL
            return [SL.user_opt(s.S)]
        if 'BuildHasher' in txt: return [Opq(oname('hasher_builder'), 'hasher_builder')]
        if 'Index<usize>' in txt: return [vec(s.fresh('w'))]
        return [Opq(oname(s.fresh('any')), 'input')]
    def gen(s, ti, preds, depth=0):
        P = s.P; t = P.ty(ti); k = t.get('k')
        if depth > 6: raise Giveup('argument type too deep')
        if k == 'prim':
            p = t['s']
            if p in ('f64', 'f32'): return [real(s.fresh('r'))]
            if p == 'bool': return [sym(s.fresh('b'), 'b')]
            if p == 'u8': return [usize(s.fresh('u'), 'order')]
            if p in ('usize', 'u16', 'u32', 'u64'): return [usize(s.fresh('u'))]
            if p in ('isize', 'i8', 'i16', 'i32', 'i64'): return [sym(s.fresh('i'), 'i', 'int')]
        if k == 'ref': return s.gen(t['t'], preds, depth + 1)
        if k == 'slice' or k == 'array': return [s.seq(t['t'], preds, depth)]
        if k == 'tuple':
            return [Tup([s.gen(i, preds, depth + 1)[0] for i in t['args']])]
        if k in ('param', 'alias'): return s.param(t.get('name') or t['s'], preds)
        if k == 'adt':
            p = t['path']
            if p.endswith('::Features'): 
                n = s.fresh('x')
                return [dense(s.S, n), sparse(s.S, n, usize('n_' + n), keys=usize('keys_' + n))]
            if p.endswith('SparseActivations'):
                n = s.fresh('x'); return [sparse_act(s.S, n, usize('n_' + n), keys=usize('keys_' + n))]
            if p.startswith('ndarray::ArrayBase'):
                if '[usize; 2]' in t['s']:
                    nm = s.fresh('M'); o = oname(nm)
                    return [arr(Mat(usize('nr_' + nm), usize('nc_' + nm), lambda i, j: app('mv', [o, i, j], 'r')), nm)]
                nm = s.fresh('a'); return [arr(vec(nm), nm)]
            if p.endswith('vec::Vec'): return [s.seq(t['args'][0], preds, depth)]
            if p.endswith('HashMap') or p.endswith('HashSet'):
                return [smap(s.fresh('m'), usize(s.fresh('kb')), kind='map' if p.endswith('Map') else 'set')]
            if p.startswith('crate::'):
                a = [a for a in P.D['adts'] if a['path'] == p]
                if a and any(not x['public'] for v in a[0]['variants'] for x in v['fields']): return s.built(a[0], preds, depth)
                if a and len(a[0]['variants']) == 1:
                    a = a[0]; fs = a['variants'][0]['fields']
                    sub_ = {g['name']: x for g, x in zip([g for g in a['generics'] if g.get('ty')], [x for x in t.get('args') or [] if isinstance(x, int)])}
                    alts = [[]]
                    for f in fs:
                        ft = P.ty(f['ty'])
                        fi = sub_.get(ft.get('name'), f['ty']) if ft.get('k') == 'param' else f['ty']
                        al = s.gen(fi, preds, depth + 1)
                        alts = [x + [y] for x in alts for y in al][:8]
                    return [Adt(p, 0, a['variants'][0]['name'], x, [f['name'] for f in fs]) for x in alts]
            if p.startswith('spaces::product'):
                import spec_basis as SB
                return [SB.space_of(usize(s.fresh('D')), SB.eqp)]
        raise Giveup('no arbitrary value of type %s' % t['s'])
    def built(s, a, preds, depth):
        "values of a type with private fields: whatever its public constructors return for arbitrary arguments"
        out = []
        for f in s.P.D['fns']:
            if not f.get('pub') or f.get('trait') or f.get('kind') != 'AssocFn' or 'body' not in f or s.P.ty(f.get('implself')).get('path') != a['path']: continue
            o = s.P.ty(f.get('output')); ins = f.get('inputs') or []
            if o.get('path') != a['path'] or any(s.P.ty(i).get('path') == a['path'] for i in ins): continue
            alts = [[]]
            for ti in ins:
                al = s.gen(ti, s.preds(f) + preds, depth + 1)
                alts = [x + [y] for x in alts for y in al][:4]
            for x in alts:
                r = s.S.run(f, x)
                if isinstance(r.v, Adt): out.append(r.v)
        if not out: raise Giveup('no constructor of %s analysed' % a['path'])
        return out[:6]
    def seq(s, ti, preds, depth):
        n = usize(s.fresh('n')); nm = s.fresh('v'); t = s.P.ty(ti)
        p = t['s']
        if p == 'f64': return Seq(n, lambda j: app(nm, [j], 'r'))
        if t.get('k') == 'prim': return Seq(n, lambda j: app(nm, [j], 'i'))
        if p == '(f64, f64)': return Seq(n, lambda j: Tup((app(nm, [j, I(0)], 'r'), app(nm, [j, I(1)], 'r'))))
        if p.endswith('fn(f64) -> f64>') or p.endswith('fn(f64) -> f64'):
            if t.get('k') == 'fnptr': return Seq(n, lambda j: ufn(nm))
            return Seq(n, lambda i: Seq(app(nm + '_n', [i], 'i'), lambda j: ufn(nm)))
        if p.endswith('Vec<f64>'): return Seq(n, lambda i: Seq(app(nm + '_n', [i], 'i'), lambda j: app(nm, [i, j], 'r')))
        if p.endswith('Vec<u8>'): return Seq(n, lambda i: Seq(app(nm + '_n', [i], 'i'), lambda j: app(nm, [i, j], 'i')))
        if 'Prototype' in p:
            import spec_basis as SB
            kk = SB.user_kernel(s.S)
            return Seq(n, lambda i: SB.struct(s.S, 'Prototype', {'centroid': Seq(app(nm + '_n', [i], 'i'), lambda j: app(nm, [i, j], 'r')), 'kernel': kk(app('kj', [i], 'o'))}))
        raise Giveup('no arbitrary sequence of %s' % p)

def numeric(P, ti):
    t = P.ty(ti)
    if t.get('k') == 'prim': return t['s'] not in ('bool', 'char', 'str')
    if t.get('k') == 'array': return numeric(P, t['t'])
    if t.get('k') == 'tuple': return all(numeric(P, i) for i in t['args'])
    if t.get('k') == 'adt' and t['path'].endswith('MaybeUninit'): return True
    return None if t.get('k') in ('param', 'alias') else False
def needs_drop(P, ti):
    t = P.ty(ti)
    if t.get('k') in ('prim', 'ref', 'ptr', 'fnptr', 'never'): return False
    if t.get('k') in ('tuple',): return any(needs_drop(P, i) for i in t['args'])
    if t.get('k') in ('array', 'slice'): return needs_drop(P, t['t'])
    if t.get('k') == 'adt' and t['path'].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop', 'PhantomData'): return False
    return True
INTERPRETED = re.compile(r'^(get_unchecked(_mut)?|uget(_mut)?|unwrap_unchecked|unreachable_unchecked|assert_unchecked|set_len|from_raw_parts(_mut)?|add|sub|offset|read_volatile|write_volatile)$')
def calls_user_code(P, f):
    "a call of a closure or implementation supplied by the caller, in f or in what it calls"
    reach, _ = P.reach([f['key']] + [g['key'] for g in P.D['fns'] if g.get('kind') == 'Closure' and g['key'].startswith(f['key'] + '::')])
    for k in sorted(reach):
        for n in P.nodes(k):
            c = n.get('callee')
            if c and c.get('trait') and c['trait'].split('::')[-1] in ('Fn', 'FnMut', 'FnOnce') and not (c.get('resolved') or {}).get('local'): return n.get('sp')
    return None
def unsafe_ops(P, f):
    "(site, kind, description, certain verdict or None) for every unsafe operation of a body"
    out = []
    chain = {}
    for n in walk(f['body']):
        if (n.get('sp') or '').startswith('/') and '/rustlib/src/' in n['sp']: continue
        c = n.get('callee')
        # expanded from a dependency's macro, from its own operations: that crate answers for it
        if (n.get('sp') or '').startswith('/') and '/registry/src/' in n['sp'] and n['k'] == 'Call' and c and not c.get('local') and c['path'].startswith('ndarray::slice::SliceInfo'): continue
        if n['k'] == 'Call' and c and c.get('unsafe'):
            nm = c['name']; a = c.get('args') or []
            t0 = next((i for i in a if isinstance(i, int)), None)
            if c.get('local'): out.append((n.get('sp'), 'interp', c['path'], None)); continue
            if nm in ('zeroed', 'uninitialized') and 'mem' in c['path'] and 'MaybeUninit' not in c['path']:
                z = numeric(P, n.get('ty'))
                bad = nm == 'uninitialized' or z is False
                out.append((n.get('sp'), 'value', '%s of type %s' % (nm, P.ty(n.get('ty'))['s']), 'violated' if bad else 'proved' if z else 'undecided')); continue
            if nm == 'assume_init' and 'MaybeUninit' in c['path']:
                g = peel(n['args'][0]); gc = g.get('callee') or {}
                v = None
                if gc.get('name') == 'uninit': v = 'proved' if P.ty(n['ty']).get('k') == 'array' and 'MaybeUninit' in P.ty(n['ty'])['s'] else 'violated'
                elif gc.get('name') == 'zeroed': z = numeric(P, n.get('ty')); v = 'violated' if z is False else 'proved' if z else 'undecided'
                elif gc.get('name') == 'new': v = 'proved'
                out.append((n.get('sp'), 'value', 'assume_init of %s as %s' % (gc.get('name', 'a value'), P.ty(n.get('ty'))['s']), v or 'undecided')); continue
            if nm == 'assume_init' or INTERPRETED.match(nm): out.append((n.get('sp'), 'interp', c['path'], None)); continue
            if nm in ('read', 'write', 'read_unaligned', 'write_unaligned') and 'ptr' in c['path'] and numeric(P, n['args'][1].get('ty') if 'write' in nm else n.get('ty')):
                out.append((n.get('sp'), 'interp', c['path'], None)); continue
            if nm in ('read', 'read_unaligned', 'transmute_copy', 'copy_nonoverlapping', 'copy', 'drop_in_place') and ('ptr' in c['path'] or 'mem' in c['path'] or 'intrinsics' in c['path']):
                if nm in ('read', 'read_unaligned', 'transmute_copy'): 
                    u = calls_user_code(P, P.owner(f['key']) or f)
                    guarded = any(x in json_txt(f) for x in ('ManuallyDrop', 'catch_unwind', 'abort', 'MaybeUninit'))
                    if needs_drop(P, n.get('ty')) and u and not guarded:
                        out.append((n.get('sp'), 'value', '%s duplicates an owned %s while user code at %s may unwind' % (nm, P.ty(n.get('ty'))['s'], u), 'violated')); continue
                out.append((n.get('sp'), 'value', c['path'], 'undecided')); continue
            out.append((n.get('sp'), 'value', c['path'], 'undecided'))
        elif n['k'] == 'Deref' and 'e' in n and P.ty(n['e'].get('ty')).get('k') == 'ptr':
            st_ = peel(n['e'])
            if st_.get('k') == 'Static' or (st_.get('k') == 'RawBorrow' and peel(st_.get('e', {})).get('k') == 'Static'): continue
            out.append((n.get('sp'), 'interp', 'dereference of a raw pointer', None))
        elif n['k'] == 'Static':
            for s in P.D.get('statics', []):
                if s['path'] == n['path'] and s.get('mut'): out.append((n.get('sp'), 'value', 'unsynchronised access to mutable static %s' % n['path'], 'violated' if not f.get('unsafe') else None))
        elif n['k'] == 'Cast':
            a, b = P.ty(n['e'].get('ty')), P.ty(n.get('ty'))
            if b.get('k') == 'ptr' and b.get('mut') and a.get('k') == 'ptr' and not a.get('mut'):
                chain['cast'] = n.get('sp')
        if n['k'] in ('Assign', 'AssignOp'):
            d = peel(n['l'])
            while isinstance(d, dict) and d.get('k') in ('Field', 'Index', 'Scope'): d = d['e']
            if isinstance(d, dict) and d.get('k') == 'Deref' and 'e' in d and P.ty(d['e'].get('ty')).get('k') == 'ptr': chain['write'] = n.get('sp')
    if len(chain) == 2: out.append((chain['write'], 'value', 'write through a pointer cast from a shared one at %s' % chain['cast'], 'violated'))
    return out
def json_txt(f):
    import json
    return json.dumps(f['body'])

def F10(S):
    P = Prog(S.D)
    rule = 'unsafe operation is sound for every safe caller'
    bodies = [f for f in S.D['fns'] if 'body' in f and f.get('kind') in ('Fn', 'AssocFn', 'Closure', 'Const', 'AssocConst', 'Static')]
    pend = {}
    touched = set()
    for f in bodies:
        ops = unsafe_ops(P, f)
        S.analysed.add(f['key'])
        own = P.owner(f['key']) or f
        if ops: touched.add(own['key'])
        for sp, kind, desc, verdict in ops:
            if kind == 'interp': pend[sp] = (f, own, desc)
            elif verdict: 
                o = S.put(rule, own, verdict, '%s at %s' % (desc, sp)); o.site = sp
    if not any(True for _ in pend) and not touched: S.put('no unsafe operation in the crate', {'path': 'crate', 'sp': ''}, 'proved', '%d bodies' % len(bodies))
    # every safe public entry point that reaches one, with arbitrary unrelated arguments
    hits, seen, why_ = {}, set(), {}
    entries = 0
    for f in bodies:
        if f.get('kind') not in ('Fn', 'AssocFn') or f.get('unsafe') or f.get('derived'): continue
        if not (f.get('pub') or f.get('trait')): continue
        if (f.get('trait') or '').split('::')[-1] in ('Debug', 'Display', 'Serialize', 'Deserialize', 'Visitor'): continue
        reach, via = P.reach([f['key']])
        if not (reach & (touched | {own['key'] for _, own, _ in pend.values()})): continue
        entries += 1
        S.guard('%s with arbitrary arguments' % S.label(f), lambda: entry(S, P, f, hits, seen, why_))
    for sp, (f, own, desc) in sorted(pend.items()):
        h = [x for x in hits.get(sp, [])]
        inner = None
        if own.get('unsafe'):
            # the contract of an unsafe function is checked at its callers, through the inlined body
            pass
        worst = 'proved' if sp in seen else 'undecided'
        detail = 'within bounds on every path from %d safe entry points' % entries
        order = ['proved', 'agree', 'undecided', 'violated']
        if sp not in seen:
            detail = 'not reached from a safe entry point' + (': ' + '; '.join(sorted(why_.get(sp, ()))[:2]) if why_.get(sp) else '')
        elif why_.get(sp): worst, detail = 'undecided', '; '.join(sorted(why_[sp])[:2])
        for ent, cond, w in h:
            v = compare([(cond, FALSE)], TRUE)
            if order.index(v.status) > order.index(worst): worst = v.status; detail = '%s, called from %s: %s' % (w, ent, v.detail)
        if own.get('unsafe') and sp not in seen: worst, detail = 'proved', 'inside an unsafe function that no safe function calls; the contract is the caller\'s'
        o = S.put(rule, own, worst, '%s: %s' % (desc, detail)); o.site = sp
    for im in S.D['impls']:
        tr = (im.get('trait') or '').split('::')[-1]
        if not im.get('unsafe') or im.get('derived') or tr == 'TrivialClone': continue
        lab = {'path': 'unsafe impl %s for %s' % (tr, P.ty(im['self'])['s']), 'sp': im.get('sp', '')}
        if tr in ('Send', 'Sync'):
            b, u = type_effects(P, im['self'])
            gens = [P.ty(i)['name'] for i in (P.ty(im['self']).get('args') or []) if isinstance(i, int) and P.ty(i).get('k') == 'param']
            un = [g for g in gens if not any(p.startswith('%s: ' % g) and p.endswith('marker::' + tr) for p in im.get('preds', []))]
            b = [x for x in b if 'fn(' not in x]
            S.put(rule, lab, 'violated' if b or un else 'undecided' if u else 'proved', '; '.join(b + ['%s need not be %s' % (g, tr) for g in un] + u))
        else: S.put(rule, lab, 'undecided', 'unsafe trait')
def entry(S, P, f, hits, seen, why_):
    core.LAYOUT[0] = S.keep_checks = True
    try: return entry1(S, P, f, hits, seen, why_)
    finally: core.LAYOUT[0] = S.keep_checks = False
def entry1(S, P, f, hits, seen, why_):
    g = Gen(S, P); pr = g.preds(f)
    alts = [[]]
    for ti in f.get('inputs') or []:
        al = g.gen(ti, pr)
        alts = [x + [y] for x in alts for y in al][:16]
    for a in alts:
        r = S.run(f, list(a))
        for sp, ws in r.I.unsafe_seen.items():
            seen.add(sp)
            for w in ws:
                if w: why_.setdefault(sp, set()).add(w)
        for cond, sp, w in r.panics:
            if w in UBW: hits.setdefault(sp, []).append((S.label(f), cond, w))
        escaped(S, r, f, hits)
def escaped(S, r, f, hits):
    "memory never written that a caller can read in the result"
    def look(v, d=0):
        v = r.I.deref(r.st, v) if not isinstance(v, T) else v
        if d > 4: return
        if isinstance(v, VIte): look(v.a, d); look(v.b, d)
        elif isinstance(v, Adt):
            for x in v.fields: look(x, d + 1)
        elif isinstance(v, Tup):
            for x in v.items: look(x, d + 1)
        elif isinstance(v, Seq) and v.guard is None and not v.pushes:
            j = sym('elt', 'i', 'any', v.n); x = v.at(j)
            if isinstance(x, T):
                c = lib.uninit_at(x)
                if c is not FALSE: S.holds('no uninitialised memory reaches the caller', f, not_(and_(lt(j, v.n), c)))
    for v in [r.raw] + list(r.args): look(v)

# ------------------------------------------------------------------ F09: memory layout
LAYOUT_SPECS = [('spec_features', 'F01 F02 F03 F04 F05 F06 F07 F08'), ('spec_basis', 'B05 B06 B13'),
                ('spec_optim', 'O01 O02 O03 O04 O05 O06 O07 O08'), ('spec_lfa', 'L01 L02 L04 L05')]
def F09(S):
    """Every obligation about a feature, optimiser or approximator operation, decided once with arrays of ordinary
    layout and once with caller-supplied arrays of any layout: what holds of the former holds of the latter."""
    import importlib
    for mod, pids in LAYOUT_SPECS:
        m = importlib.import_module(mod)
        for pid in pids.split():
            res = []
            for lay in (False, True):
                core.LAYOUT[0] = lay
                T_ = core.Session(S.D, S.tier); T_.dumps = getattr(S, 'dumps', {})
                try: T_.guard(pid, lambda: getattr(m, pid)(T_))
                finally: core.LAYOUT[0] = False
                res.append(T_)
            a, b = res
            S.analysed |= b.analysed; S.sites += b.sites
            if [(o.rule, o.fn) for o in a.obs] != [(o.rule, o.fn) for o in b.obs]:
                # an obligation vanished with the layout: pair by name instead
                last = {}
                for o in a.obs: last[(o.rule, o.fn)] = o
                pairs = [(last.get((o.rule, o.fn)), o) for o in b.obs]
            else: pairs = list(zip(a.obs, b.obs))
            for o, p in pairs:
                if o is not None and o.status == 'violated':
                    continue        # broken for every layout: not a matter of layout, and reported where it belongs
                st = 'undecided' if o is None and p.status == 'violated' else p.status
                q = S.put('%s, whatever the layout of the arrays (%s)' % (p.rule, pid), p.fn, st, p.detail); q.site = p.site
    def order():
        f = S.fn('Features', 'fold')
        core.LAYOUT[0] = True
        try:
            g = UFn('h', lambda I_, st, a: F('h', I_.scalar(st, a[0]), I_.scalar(st, a[1])))
            x0 = real('x0'); n = usize('n_x')
            r = S.run(f, [dense(S, 'x'), x0, g])
            acc, q = TM.bv('r', 'acc'), TM.bv('i', 'k')
            S.eq('a fold visits the activations of a dense vector in index order', f,
                 [(ts(r.v), TM.mkfold(n, q, [acc], [x0], [F('h', acc, app('dv', [oname('x'), q], 'r', 'act'))], 0))], run=r)
        finally: core.LAYOUT[0] = False
    S.guard('fold order', order)

# ------------------------------------------------------------------ L06: training
def L06(S):
    P = Prog(S.D)
    hidden_state(S, P)
    pure = {f['key'] for f in pure_roots(S)}
    roots = [f for f in S.D['fns'] if f.get('kind') in ('Fn', 'AssocFn') and 'body' in f and f['key'] not in pure and not f.get('derived')]
    no_ambient(S, P, roots, 'no hidden input or effect')
