"""Serialisation: the (de)serialiser bodies interpreted against an abstract data format."""
import re
from core import *
import lib
import effects
from lib import TR, F, FN, ok, err
from absint import Val, Str, Opq, Adt, Tup, Seq, VIte, Unk, Ref, BOT, UNIT, OPTION
import absint
SER, DE, VIS = 'serde_core::ser::Serialize', 'serde_core::de::Deserialize', 'serde_core::de::Visitor'

# ------------------------------------------------------------------ documents
class Doc(Val):
    """What a serialiser was told.  kind: value (one value handed to the format as it is), struct, tuple, newtype,
    unit, variant; entries: [(name or None, Doc)]; index/vname of a variant, entries[0] its content"""
    def __init__(s, kind, entries=(), name=None, index=None, vname=None, value=None, n=None):
        s.kind, s.entries, s.name, s.index, s.vname, s.value, s.n = kind, tuple(entries), name, index, vname, value, n
    def with_entries(s, es): return Doc(s.kind, es, s.name, s.index, s.vname, s.value, s.n)
    def __repr__(s): return '%s[%s]' % (s.kind, ', '.join('%s: %r' % e for e in s.entries))
class SerV(Val):
    "a serializer / compound serializer under construction"
    def __init__(s, doc=None): s.doc = doc
class DeV(Val):
    "a deserializer positioned at a document"
    def __init__(s, doc): s.doc = doc
class Ident(Val):
    "the name (or index) of a field or variant"
    def __init__(s, name, index): s.name, s.index = name, index
class Access(Val):
    "map or sequence access: remaining entries"
    def __init__(s, entries, pos=0): s.entries, s.pos = tuple(entries), pos
BAD = Doc('bad')       # a value that does not deserialise
def bad(name): return err(Opq(app('de_error', [TM.sym('e_' + name, 'o')], 'o'), 'de error'))
def none(): return Adt(OPTION, 0, 'None', ())
def some(v): return Adt(OPTION, 1, 'Some', (v,))
FORMAT = ['map']       # 'map': self-describing, names; 'seq': positional, indices

def gate(v, f):
    if isinstance(v, VIte):
        a, b = gate(v.a, f), gate(v.b, f)
        return a if b is BOT else b if a is BOT else absint.vite(v.c, a, b)
    return f(v)
def bare(ty): return re.sub(r"^(&('\w+ )?(mut )?)+", '', ty)
def local_impl(I_, trait, ti, v=None):
    "the crate's own impl of a serde trait for a type"
    t = I_.T[ti] if isinstance(ti, int) else {}
    while t.get('k') == 'ref': t = I_.T[t['t']]
    p = t.get('path')
    if t.get('k') != 'adt' or not (p or '').startswith('crate::'): return None
    nm = trait.split('::')[-1].lower()
    c = [f for f in I_.D['fns'] if f.get('trait') == trait and f.get('name') == nm and 'implself' in f and I_.T[f['implself']].get('path') == p and 'body' in f]
    return c[0] if len(c) == 1 else None
def model(I_, ti):
    "a type that is serialised on its own, elsewhere: its values pass through as they are"
    t = I_.T[ti] if isinstance(ti, int) else {}
    while t.get('k') == 'ref': t = I_.T[t['t']]
    p = t.get('path') or ''
    a = [a for a in I_.D['adts'] if a['path'] == p]
    return bool(a) and '<impl' not in p and '::serialize::' not in p and '::deserialize::' not in p and not p.split('::')[-1].startswith('__') and a[0].get('pub', True)

# ------------------------------------------------------------------ serialising
def subdoc(I_, st, ti, v):
    "document of a nested value"
    f = local_impl(I_, SER, ti)
    if f is not None and not model(I_, ti):
        r = I_.call_fn(st, f['key'], [v if isinstance(v, Ref) else Ref(st.new(I_.deref(st, v))), SerV()])
        r = pick(I_.deref(st, r), 'Ok')
        return r
    t = I_.T[ti] if isinstance(ti, int) else {'s': '?'}
    return Doc('value', value=I_.deref(st, v), name=bare(t['s']))
def strof(I_, st, v):
    v = I_.deref(st, v)
    return v.s if isinstance(v, Str) else None
def usz(I_, st, v):
    v = I_.scalar(st, v)
    if isinstance(v, T) and v.op == 'num': return int(v.val)
    try: return int(str(v))
    except Exception: return None
@TR('Serializer.serialize_struct Serializer.serialize_tuple_struct Serializer.serialize_tuple Serializer.serialize_seq Serializer.serialize_map')
def _(I_, st, a, c, site, e):
    k = {'serialize_struct': 'struct', 'serialize_map': 'struct'}.get(c['name'], 'tuple')
    return ok(SerV(Doc(k, name=strof(I_, st, a[1]) if k == 'struct' and len(a) > 1 else None, n=a[-1])))
PRIMS = 'f32 f64 bool char u8 u16 u32 u64 u128 i8 i16 i32 i64 i128'
@TR(' '.join('Serializer.serialize_' + x for x in PRIMS.split()))
def _(I_, st, a, c, site, e): return ok(Doc('value', value=I_.deref(st, a[1]), name=c['name'][len('serialize_'):]))
@TR('Serializer.serialize_newtype_struct')
def _(I_, st, a, c, site, e):
    return gate(subdoc(I_, st, c['args'][1], a[2]), lambda d: ok(Doc('newtype', [(None, d)], strof(I_, st, a[1]))) if isinstance(d, Doc) else d)
@TR('Serializer.serialize_unit_struct Serializer.serialize_unit')
def _(I_, st, a, c, site, e): return ok(Doc('unit'))
@TR('Serializer.serialize_unit_variant')
def _(I_, st, a, c, site, e): return ok(Doc('variant', (), strof(I_, st, a[1]), I_.scalar(st, a[2]), strof(I_, st, a[3])))
@TR('Serializer.serialize_newtype_variant')
def _(I_, st, a, c, site, e):
    return gate(subdoc(I_, st, c['args'][1], a[4]), lambda d: ok(Doc('variant', [(None, Doc('newtype', [(None, d)]))], strof(I_, st, a[1]), I_.scalar(st, a[2]), strof(I_, st, a[3]))) if isinstance(d, Doc) else d)
@TR('Serializer.serialize_struct_variant Serializer.serialize_tuple_variant')
def _(I_, st, a, c, site, e):
    k = 'struct' if 'struct' in c['name'] else 'tuple'
    return ok(SerV(Doc('variant', [(None, Doc(k))], strof(I_, st, a[1]), I_.scalar(st, a[2]), strof(I_, st, a[3]))))
@TR('Serializer.is_human_readable Deserializer.is_human_readable')
def _(I_, st, a, c, site, e): return B(FORMAT[0] == 'map')
def appended(I_, st, a, name, d):
    p = I_.place_of(st, a)
    def add_(s):
        if not isinstance(s, SerV): return s
        return gate(d, lambda x: SerV(extend(s.doc, name, x)) if isinstance(x, Doc) else x)
    I_.write(st, p, gate(I_.read(st, p), add_))
    return ok(UNIT)
def extend(doc, name, x):
    if doc.kind == 'variant':
        inner = doc.entries[0][1]
        return doc.with_entries([(None, inner.with_entries(inner.entries + ((name, x),)))])
    return doc.with_entries(doc.entries + ((name, x),))
@TR('SerializeStruct.serialize_field SerializeStructVariant.serialize_field')
def _(I_, st, a, c, site, e):
    n = strof(I_, st, a[1])
    if n is None: return I_.unk('computed field name')
    return appended(I_, st, a[0], n, subdoc(I_, st, c['args'][1], a[2]))
@TR('SerializeTuple.serialize_element SerializeSeq.serialize_element SerializeTupleStruct.serialize_field SerializeTupleVariant.serialize_field')
def _(I_, st, a, c, site, e): return appended(I_, st, a[0], None, subdoc(I_, st, c['args'][1], a[1]))
@TR('SerializeMap.serialize_entry')
def _(I_, st, a, c, site, e):
    n = strof(I_, st, a[1])
    if n is None: return I_.unk('computed field name')
    return appended(I_, st, a[0], n, subdoc(I_, st, c['args'][2], a[2]))
@TR('SerializeStruct.skip_field SerializeStructVariant.skip_field')
def _(I_, st, a, c, site, e): return ok(UNIT)
@TR('SerializeStruct.end SerializeStructVariant.end SerializeTuple.end SerializeSeq.end SerializeTupleStruct.end SerializeTupleVariant.end SerializeMap.end')
def _(I_, st, a, c, site, e):
    return gate(I_.deref(st, a[0]), lambda s: ok(s.doc) if isinstance(s, SerV) else s)
@TR('Serialize.serialize')
def _(I_, st, a, c, site, e):
    s = I_.deref(st, a[1])
    if not isinstance(s, SerV): return NotImplemented
    f = local_impl(I_, SER, c['args'][0])
    if f is not None: return I_.call_fn(st, f['key'], [a[0] if isinstance(a[0], Ref) else Ref(st.new(I_.deref(st, a[0]))), s])
    return gate(subdoc(I_, st, c['args'][0], a[0]), lambda d: ok(d) if isinstance(d, Doc) else d)

# ------------------------------------------------------------------ deserialising
def visit(I_, st, visitor, names, arg):
    "call the first of the named visitor methods that the crate implements; the provided ones report a type error"
    v = I_.deref(st, visitor)
    if isinstance(v, Unk): return v
    for n in names:
        c = I_.find(name=n, self=v.path, trait=VIS) if isinstance(v, Adt) else []
        if len(c) == 1: return I_.call_fn(st, c[0]['key'], [v, arg])
        if c: return I_.unk('ambiguous visitor')
    if not isinstance(v, Adt): return I_.unk('visitor %s' % type(v).__name__)
    return bad('invalid_type')
def de_value(I_, st, ti, doc):
    "deserialise a value of a type from a document"
    if doc.kind == 'bad': return bad('value')
    t = I_.T[ti] if isinstance(ti, int) else {'s': '?', 'k': '?'}
    s = bare(t['s'])
    if s.endswith('IgnoredAny'): return ok(UNIT)
    if s.endswith('PhantomData') or t.get('k') == 'tuple' and not t.get('args'): return ok(UNIT)
    f = local_impl(I_, DE, ti)
    if f is not None and not (doc.kind == 'value' and model(I_, ti)): return I_.call_fn(st, f['key'], [DeV(doc)])
    if doc.kind == 'value': 
        if mismatched(I_, doc.name, ti): return bad('invalid_type')
        if doc.name != s and not (t.get('k') in ('param', 'alias') or s == '_' or same_repr(doc.name, s)): return I_.unk('%s read back as %s' % (doc.name, s))
        return ok(doc.value)
    if doc.kind == 'tuple' and t.get('k') == 'tuple':
        out = []
        if len(doc.entries) < len(t['args']): return bad('invalid_length')
        for ai, (n, d) in zip(t['args'], doc.entries):
            r = de_value(I_, st, ai, d)
            if not (isinstance(r, Adt) and r.vname == 'Ok'): return r
            out.append(r.fields[0])
        return ok(Tup(out))
    if doc.kind == 'ident':
        if s in ('std::string::String', 'str', 'alloc::string::String') and FORMAT[0] == 'map': return ok(Str(doc.value.name))
        return I_.unk('identifier read as %s' % s)
    return I_.unk('%s document read as %s' % (doc.kind, s))
def mismatched(I_, name, ti):
    "was the value written as a plain number (or flag) and is read as a sequence, or the other way round"
    plain = r'([ui](8|16|32|64|128|size)|f32|f64|bool|char)$'
    t = I_.T[ti] if isinstance(ti, int) else {}
    w = bare(name or '')
    is_seq = lambda x: bool(re.match(r'((std|alloc)::vec::)?Vec<|\[', x))
    if t.get('k') == 'prim' and is_seq(w): return True
    return bool(re.match(plain, w)) and (is_seq(bare(t.get('s', ''))) or t.get('k') == 'tuple')
def same_repr(a, b):
    f = lambda s: re.sub(r'std::vec::Vec|alloc::vec::Vec|std::boxed::Box|\[|\]|<|>|, .*RandomState|std::collections::(hash_map::)?HashMap', '', s or '')
    return f(a) == f(b)
def ddoc(I_, st, v):
    v = I_.deref(st, v)
    return v.doc if isinstance(v, DeV) else None
@TR('Deserializer.deserialize_struct Deserializer.deserialize_map Deserializer.deserialize_tuple_struct Deserializer.deserialize_tuple Deserializer.deserialize_seq Deserializer.deserialize_newtype_struct Deserializer.deserialize_unit_struct Deserializer.deserialize_unit Deserializer.deserialize_any')
def _(I_, st, a, c, site, e):
    d = ddoc(I_, st, a[0])
    if d is None: return I_.unk('deserializer')
    vis = a[-1]
    if d.kind == 'bad': return bad('value')
    if c['name'] == 'deserialize_any' and FORMAT[0] == 'seq': return bad('not self-describing')
    if d.kind == 'newtype' and c['name'] == 'deserialize_newtype_struct':
        return visit(I_, st, vis, ['visit_newtype_struct'], DeV(d.entries[0][1]))
    if d.kind == 'newtype': d = Doc('tuple', d.entries) if FORMAT[0] == 'seq' else d.entries[0][1]
    if d.kind == 'struct' and FORMAT[0] == 'map' and c['name'] not in ('deserialize_tuple_struct', 'deserialize_tuple', 'deserialize_seq'): return visit(I_, st, vis, ['visit_map'], Access(d.entries))
    if d.kind == 'struct' and c['name'] == 'deserialize_struct' and len(a) > 2:
        # positional formats hand out as many elements as there are declared fields
        fl = I_.deref(st, a[2])
        if isinstance(fl, Seq) and fl.n.op == 'const': return visit(I_, st, vis, ['visit_seq'], Access(d.entries[:int(fl.n.args[0])]))
    if d.kind in ('struct', 'tuple'): return visit(I_, st, vis, ['visit_seq'], Access(d.entries))
    if d.kind == 'unit': return visit(I_, st, vis, ['visit_unit'], UNIT)
    if d.kind == 'value': return I_.unk('the content of a %s is taken apart' % d.name)
    return bad('invalid_type')
@TR('Deserializer.deserialize_identifier Deserializer.deserialize_str Deserializer.deserialize_string')
def _(I_, st, a, c, site, e):
    d = ddoc(I_, st, a[0])
    if d is None or d.kind != 'ident': return I_.unk('identifier')
    if FORMAT[0] == 'map' and d.value.name is not None: return visit(I_, st, a[1], ['visit_str', 'visit_borrowed_str', 'visit_string'] if c['name'] != 'deserialize_string' else ['visit_string', 'visit_str'], Str(d.value.name))
    return visit(I_, st, a[1], ['visit_u32', 'visit_u64'], d.value.index)
@TR('Deserializer.deserialize_enum')
def _(I_, st, a, c, site, e):
    d = ddoc(I_, st, a[0])
    if d is None: return I_.unk('deserializer')
    if d.kind == 'bad': return bad('value')
    if d.kind != 'variant': return bad('invalid_type')
    return visit(I_, st, a[-1], ['visit_enum'], DeV(d))
@TR('EnumAccess.variant')
def _(I_, st, a, c, site, e):
    d = ddoc(I_, st, a[0])
    if d is None: return I_.unk('enum access')
    r = de_value(I_, st, c['args'][1], Doc('ident', value=Ident(d.vname, d.index)))
    return gate(r, lambda x: ok(Tup((x.fields[0], DeV(d)))) if isinstance(x, Adt) and x.vname == 'Ok' else x)
@TR('VariantAccess.newtype_variant')
def _(I_, st, a, c, site, e):
    d = ddoc(I_, st, a[0])
    if d is None: return I_.unk('variant access')
    if not d.entries or d.entries[0][1].kind != 'newtype': return bad('invalid_type') if not d.entries or d.entries[0][1].kind != 'bad' else bad('value')
    return de_value(I_, st, c['args'][1], d.entries[0][1].entries[0][1])
@TR('VariantAccess.unit_variant')
def _(I_, st, a, c, site, e):
    d = ddoc(I_, st, a[0])
    if d is None: return I_.unk('variant access')
    return ok(UNIT) if not d.entries else bad('invalid_type')
@TR('VariantAccess.struct_variant VariantAccess.tuple_variant')
def _(I_, st, a, c, site, e):
    d = ddoc(I_, st, a[0])
    if d is None: return I_.unk('variant access')
    if not d.entries: return bad('invalid_type')
    i = d.entries[0][1]
    if i.kind == 'bad': return bad('value')
    if i.kind == 'struct' and c['name'] == 'struct_variant' and FORMAT[0] == 'map': return visit(I_, st, a[-1], ['visit_map'], Access(i.entries))
    if i.kind in ('struct', 'tuple'): return visit(I_, st, a[-1], ['visit_seq'], Access(i.entries))
    return bad('invalid_type')
def access(I_, st, a, step):
    "step(Access) -> (new Access, result)"
    p = I_.place_of(st, a); v = I_.read(st, p)
    if isinstance(v, VIte): return I_.unk('diverging document position')
    if not isinstance(v, Access): return I_.unk('document position')
    n, r = step(v)
    I_.write(st, p, n)
    return r
@TR('MapAccess.next_key MapAccess.next_key_seed')
def _(I_, st, a, c, site, e):
    def go(x):
        if x.pos >= len(x.entries): return x, ok(none())
        r = de_value(I_, st, c['args'][1], Doc('ident', value=Ident(x.entries[x.pos][0], I(x.pos))))
        return x, gate(r, lambda y: ok(some(y.fields[0])) if isinstance(y, Adt) and y.vname == 'Ok' else y)
    return access(I_, st, a[0], go)
@TR('MapAccess.next_value')
def _(I_, st, a, c, site, e):
    def go(x):
        if x.pos >= len(x.entries): return x, bad('eof')
        return Access(x.entries, x.pos + 1), de_value(I_, st, c['args'][1], x.entries[x.pos][1])
    return access(I_, st, a[0], go)
@TR('MapAccess.next_entry')
def _(I_, st, a, c, site, e):
    def go(x):
        if x.pos >= len(x.entries): return x, ok(none())
        k = de_value(I_, st, c['args'][1], Doc('ident', value=Ident(x.entries[x.pos][0], I(x.pos))))
        v = de_value(I_, st, c['args'][2], x.entries[x.pos][1])
        return Access(x.entries, x.pos + 1), gate(k, lambda y: gate(v, lambda z: ok(some(Tup((y.fields[0], z.fields[0])))) if z.vname == 'Ok' else z) if y.vname == 'Ok' else y)
    return access(I_, st, a[0], go)
@TR('SeqAccess.next_element')
def _(I_, st, a, c, site, e):
    def go(x):
        if x.pos >= len(x.entries): return x, ok(none())
        r = de_value(I_, st, c['args'][1], x.entries[x.pos][1])
        return Access(x.entries, x.pos + 1), gate(r, lambda y: ok(some(y.fields[0])) if isinstance(y, Adt) and y.vname == 'Ok' else y)
    return access(I_, st, a[0], go)
@TR('SeqAccess.size_hint MapAccess.size_hint')
def _(I_, st, a, c, site, e): return none()
@TR('Deserialize.deserialize')
def _(I_, st, a, c, site, e):
    d = ddoc(I_, st, a[0])
    if d is None: return NotImplemented
    return de_value(I_, st, c['args'][0], d)
@F("serde::private::de::content::ContentVisitor::<'de>::new")
def _(I_, st, a, c, site, e): return Opq(TM.sym('content_visitor', 'o'), 'content')
@TR('DeserializeSeed.deserialize')
def _(I_, st, a, c, site, e):
    d = ddoc(I_, st, a[1])
    if d is None or not (isinstance(a[0], Opq) and a[0].tag == 'content'): return NotImplemented
    return bad('not self-describing') if FORMAT[0] == 'seq' else ok(DeV(d))   # buffered
@F("serde::private::de::content::ContentRefDeserializer::<'a, 'de, E>::new")
def _(I_, st, a, c, site, e):
    d = ddoc(I_, st, a[0])
    return DeV(d) if d is not None else I_.unk('buffered content')
ERRS = 'missing_field duplicate_field invalid_length invalid_value invalid_type unknown_field unknown_variant custom'.split()
for n in ERRS:
    @TR('Error.' + n)
    def _(I_, st, a, c, site, e, n=n):
        if 'de::Error' not in (c.get('trait') or '') and 'ser::Error' not in (c.get('trait') or ''): return NotImplemented
        return Opq(app('de_error', [TM.sym('e_' + n, 'o')], 'o'), 'de error')
@F('serde::private::de::missing_field', 'serde::__private::de::missing_field')
def _(I_, st, a, c, site, e):
    t = I_.T[c['args'][0]] if c.get('args') else {}
    if t.get('path', '') in (OPTION, 'std::option::Option'): return ok(none())
    return bad('missing_field')
@F('serde_core::private::string::from_utf8_lossy', 'serde::private::from_utf8_lossy')
def _(I_, st, a, c, site, e): return Opq(TM.sym('text', 'o'), 'text')

# ------------------------------------------------------------------ what is checked
def pairs(S):
    "(ADT, serialize, deserialize) of every model type that has both"
    out = []
    for a in S.D['adts']:
        p = a['path']
        if '<impl' in p or '::deserialize::' in p or '::serialize::' in p: continue
        s = [f for f in S.D['fns'] if f.get('trait') == SER and f.get('name') == 'serialize' and S.T[f['implself']].get('path') == p and 'body' in f]
        d = [f for f in S.D['fns'] if f.get('trait') == DE and f.get('name') == 'deserialize' and S.T[f['implself']].get('path') == p and 'body' in f]
        if len(s) == 1 and len(d) == 1: out.append((a, s[0], d[0]))
    return out
def interp(S):
    I_ = S.interp(); I_.unroll = 24
    return I_
def field_values(S, a, tag):
    "one arbitrary value per variant"
    P = effects.Program(S) if False else None
    out = []
    for vi, v in enumerate(a['variants']):
        fs = []
        for f in v['fields']: fs.append(arbitrary(S, f['ty'], '%s_%s' % (tag, f['name'])))
        out.append(Adt(a['path'], vi, v['name'], fs, [f['name'] for f in v['fields']]))
    return out
def arbitrary(S, ti, nm):
    t = S.T[ti]; s = t['s']
    if t['k'] == 'prim':
        if s in ('f64', 'f32'): return sym(nm, 'r')
        if s == 'bool': return sym(nm, 'b')
        if s in ('usize', 'u8', 'u16', 'u32', 'u64'): return usize(nm, 'order' if s == 'u8' else 'any')
        if s[0] == 'i': return sym(nm, 'i', 'int')
    if t['k'] == 'tuple': return Tup([arbitrary(S, x, '%s_%d' % (nm, i)) for i, x in enumerate(t['args'])])
    if t['k'] == 'adt' and t['path'].endswith('vec::Vec'):
        o = oname(nm); e = S.T[t['args'][0]]
        if e['s'] == 'f64': return vec(nm, usize('n_' + nm, 'dimn'), 'any')
        if e['k'] == 'prim' and e['s'][0] in 'ui': return Seq(usize('n_' + nm, 'dimn'), lambda j: app('iv', [o, j], 'i'))
        if e['k'] == 'tuple' and all(S.T[x]['s'] == 'f64' for x in e['args']): return Seq(usize('n_' + nm, 'dimn'), lambda j: Tup([app('iv%d' % i, [o, j], 'r') for i in range(len(e['args']))]))
    if re.match(r'ndarray::ArrayBase<ndarray::OwnedRepr<f64>, ndarray::Dim<\[usize; 1\]>>$', s): return vec(nm, usize('n_' + nm, 'dimn'), 'any')
    if re.match(r'std::collections::HashMap<usize, f64(, std::(collections::hash_map|hash)::RandomState)?>$', s): return smap(nm, usize('n_' + nm, 'dimn'), 'any')
    if t['k'] == 'adt' and t['path'] == OPTION:
        return absint.vite(sym('has_' + nm, 'b'), some(arbitrary(S, t['args'][0], nm)), none())
    return Opq(oname(nm), 'field')

def serialise(S, a, f, v, rule):
    "the document(s) of a value, or None"
    I_ = interp(S)
    r = S.run(f, [v, SerV()], I_=I_)
    d = pick(r.v, 'Ok')
    if r.panics or r.dead: S.put(rule, f, 'violated' if r.dead or any(compare([(c, FALSE)], TRUE).status == 'violated' for c, si, w in r.panics) else 'undecided', 'serialising may abort'); return None
    def docs(d, cond):
        if isinstance(d, VIte): return docs(d.a, cond + [d.c]) + docs(d.b, cond + [TM.not_(d.c)])
        return [(and_(*cond) if cond else TRUE, d)]
    ds = docs(d, [])
    if not all(isinstance(x, Doc) for _, x in ds):
        S.put(rule, f, 'undecided', 'serialised form: %r' % [x for _, x in ds if not isinstance(x, Doc)][:1]); return None
    return ds
def result_is_err(r):
    return ts(gated(r.v, lambda x: B(x.vname == 'Err') if isinstance(x, Adt) and x.path == absint.RESULT else TM.unk(getattr(x, 'why', type(x).__name__))))
def name_of(a): return a['path'].replace('crate::', '')
def constructors(S, a):
    "public functions that make a value of the type, and methods that turn one into another"
    mk_, mod = [], []
    for f in S.D['fns']:
        if f.get('kind') != 'AssocFn' or not f.get('pub') or f.get('trait') or 'body' not in f or 'implself' not in f or S.T[f['implself']].get('path') != a['path']: continue
        o = S.T[f['output']]
        if o.get('path') != a['path']: continue
        ins = [S.T[i] for i in f.get('inputs') or []]
        selfs = [i for i, t in enumerate(ins) if t.get('path') == a['path']]
        if not selfs: mk_.append(f)
        elif selfs == [0]: mod.append(f)
    return mk_, mod
def hidden(S, a, ds):
    "does the document leave out some field of the value"
    n = max(len(v['fields']) for v in a['variants'])
    return a['variants'] and len(a['variants']) == 1 and all(len(d.entries) < n for _, d in ds)

def mutable(S, a):
    "has the type methods that change it in place (its state is then more than what a constructor makes)"
    for f in S.D['fns']:
        ins = f.get('inputs') or []
        if 'implself' in f and ins and S.T[f['implself']].get('path') == a['path'] and 'serde' not in (f.get('trait') or '') and S.T[ins[0]].get('mut') and S.T[ins[0]].get('k') == 'ref': return True
    return False

def S01(S):
    base = S
    S = serde_session(S)
    for a, fs, fd in pairs(S):
        for vi, v in enumerate(a['variants']):
            nm = 'S01:%s' % name_of(a) + ('::' + v['name'] if len(a['variants']) > 1 else '')
            S.guard(nm, lambda: roundtrip(S, a, fs, fd, vi, nm))
    finish(base, S)
def observed(S, a, I_, st, v):
    "what users can see of a value: its fields (function tables: through the features they compute)"
    return lib.digest(I_, st, v)
def roundtrip(S, a, fs, fd, vi, nm):
    values = [('any field values', field_values(S, a, 'fld')[vi], State(), TRUE, fs)]
    ds = serialise(S, a, fs, values[0][1], nm)
    if ds is None: return
    if hidden(S, a, ds) and not mutable(S, a):
        # some fields are not written: they must come back for every value the public constructors can make
        mk_, mod = constructors(S, a)
        if mk_: values = []
        for f in mk_:
            for v, pre in built_by(S, f): values.append((f['name'], v, None, pre, f))
        made = list(values)
        for f in mod:
            for n, v, st, pre, _ in made[:1]:
                r = S.run(f, [v], I_=interp(S)); 
                if isinstance(r.v, Adt): values.append((f['name'], r.v, None, and_(pre, *[TM.not_(c) for c, _, _ in r.panics]), f))
    for what, v, st, pre, f in values:
        rule = '%s:%s' % (nm, what)
        ds = serialise(S, a, fs, v, rule)
        if ds is None: continue
        for cond, d in ds:
            for fmt in ('map', 'seq'):
                FORMAT[0] = fmt
                try:
                    r = S.run(fd, [DeV(d)], I_=interp(S), pc=tuple(x for x in (pre, cond) if x is not TRUE))
                finally: FORMAT[0] = 'map'
                got = pick(r.v, 'Ok'); bound = TM.and_(pre, cond)
                lost = ts(result_is_err(r))
                fl = len(a['variants'][vi]['fields'])
                prs = [(lost, FALSE)]
                if isinstance(got, Adt) and got.var == vi and len(got.fields) == fl:
                    for x, y in zip(v.fields, got.fields): prs.append(same(S, r, x, y))
                elif isinstance(got, Adt): prs.append((TRUE, FALSE))
                elif got is BOT: pass
                else: prs.append((ts(gated(got, lambda y: B(isinstance(y, Adt) and y.var == vi) if isinstance(y, Adt) else TM.unk(getattr(y, 'why', type(y).__name__)))), TRUE)); prs.append((lib.digest(r.I, r.st, v), lib.digest(r.I, r.st, got)))
                S.eq('%s (%s)' % (rule, fmt), f, prs, assume=bound, run=r)
def same(S, r, x, y):
    "equality of a field; tables of functions are compared by what the functions compute"
    x, y = r.I.deref(r.st, x), r.I.deref(r.st, y)
    if isinstance(x, Seq) and isinstance(y, Seq):
        q, j = bv('i', 'row'), bv('i', 'col')
        def table(z):
            row = r.I.deref(r.st, z.at(q))
            if not isinstance(row, Seq): return None
            c = r.I.deref(r.st, row.at(j))
            if isinstance(c, T) or isinstance(c, Opq): return None
            return row, c
        tx, ty = table(x), table(y)
        if tx and ty:
            z = TM.sym('at_point', 'r')
            def d(z_, t): 
                v = r.I.call_value(r.st, t[1], [z], '')
                return lib.app('seq', [z_.n, sum_(z_.n, q, sum_(t[0].n, j, app('dig', [q, j, ts(r.I.scalar(r.st, v))], 'r'))), sum_(z_.n, q, app('dig', [q, t[0].n], 'r'))], 'o')
            return d(x, tx), d(y, ty)
    return lib.digest(r.I, r.st, x), lib.digest(r.I, r.st, y)
def built_by(S, f):
    G = effects.Gen(S, effects.Prog(S.D)); alts = [[]]
    for ti in f.get('inputs') or []:
        al = G.gen(ti, G.preds(f))
        alts = [x + [y] for x in alts for y in al][:4]
    out = []
    for x in alts:
        r = S.run(f, x, I_=interp(S))
        if isinstance(r.v, Adt): out.append((r.v, and_(*[TM.not_(c) for c, _, _ in r.panics]) if r.panics else TRUE))
    return out
def serde_session(S):
    d = S.dumps.get('serde') or S.D
    s = Session(d, S.tier); s.dumps = S.dumps
    return s
def finish(base, S):
    base.obs += S.obs; base.analysed |= S.analysed; base.sites += S.sites

# ------------------------------------------------------------------ S02
def S02(S):
    base = S; S = serde_session(S)
    for a, fs, fd in pairs(S):
        for vi, v in enumerate(a['variants']):
            nm = 'S02:%s' % name_of(a) + ('::' + v['name'] if len(a['variants']) > 1 else '')
            S.guard(nm, lambda: malformed(S, a, fs, fd, vi, nm))
    finish(base, S)
def malformed(S, a, fs, fd, vi, nm):
    ds = serialise(S, a, fs, field_values(S, a, 'fld')[vi], nm)
    if ds is None: return
    cond, d = max(ds, key=lambda x: len(x[1].entries))
    inner = d.entries[0][1] if d.kind == 'variant' and d.entries else None
    def variants():
        "(what, format, document, must be an error)"
        body = inner if inner is not None else d
        def wrap(x): return d.with_entries([(None, x)]) if inner is not None else x
        n = len(body.entries)
        for fmt in ('map', 'seq'):
            yield 'well-formed', fmt, d, False
            yield 'unreadable', fmt, BAD, True
            for i in range(n):
                e = body.entries
                yield 'unreadable field %s' % (e[i][0] or i), fmt, wrap(body.with_entries(e[:i] + ((e[i][0], BAD),) + e[i+1:])), True
        if body.kind == 'struct':
            for i in range(n):
                e = body.entries
                yield 'missing field %s' % e[i][0], 'map', wrap(body.with_entries(e[:i] + e[i+1:])), True
                yield 'duplicate field %s' % e[i][0], 'map', wrap(body.with_entries(e + (e[i],))), True
                yield 'duplicate field %s in front' % e[i][0], 'map', wrap(body.with_entries((e[i],) + e)), True
            yield 'no field', 'map', wrap(body.with_entries(())), True if n else False
            yield 'unknown field', 'map', wrap(body.with_entries(body.entries + (('\x00no such field', Doc('value', value=UNIT, name='()')),))), None
        if body.kind in ('struct', 'tuple'):
            for i in range(n): yield 'truncated after %d' % i, 'seq', wrap(body.with_entries(body.entries[:i])), True
        if d.kind == 'variant':
            yield 'unknown variant', 'map', Doc('variant', d.entries, d.name, I(10 ** 6), '\x00no such variant'), True
            yield 'unknown variant', 'seq', Doc('variant', d.entries, d.name, I(10 ** 6), '\x00no such variant'), True
            yield 'variant without its content', 'map', Doc('variant', (), d.name, d.index, d.vname), True if d.entries else False
        yield 'wrong shape', 'map', Doc('unit'), True
    for what, fmt, doc, must in variants():
        FORMAT[0] = fmt
        try: r = S.run(fd, [DeV(doc)], I_=interp(S), pc=(cond,) if cond is not TRUE else ())
        finally: FORMAT[0] = 'map'
        prs = [(result_is_err(r), TRUE)] if must else []
        if not prs: prs = [(TRUE, TRUE)] if isinstance(r.raw, (Adt, VIte)) else [(ts(gated(r.v, lambda x: TRUE if isinstance(x, Adt) else TM.unk(getattr(x, 'why', type(x).__name__)))), TRUE)]
        S.eq('%s: %s (%s)' % (nm, what, fmt), fd, prs, assume=cond, run=r)
    # a document with arbitrary contents describes either a representable model or an error
    if name_of(a).endswith('Chebyshev') and d.kind == 'struct':
        at = [i for i, x in enumerate(d.entries) if x[0] == 'order' and isinstance(x[1].value, T)]
        if not at: return S.put('%s: order' % nm, fs, 'undecided', 'no order in the document')
        i = at[0]; n, x = d.entries[i]
        def with_order(o): return d.with_entries(d.entries[:i] + ((n, Doc('value', name=x.name, value=o)),) + d.entries[i+1:])
        for what, o, must in (('order above eleven', add(I(12), usize('excess')), True),):
            for fmt in ('map', 'seq'):
                FORMAT[0] = fmt
                try: r = S.run(fd, [DeV(with_order(o))], I_=interp(S))
                finally: FORMAT[0] = 'map'
                S.eq('%s: %s (%s)' % (nm, what, fmt), fd, [(result_is_err(r), B(must))], run=r)

# ------------------------------------------------------------------ S03
MODELS = ('Features', 'SparseActivations', 'LFA', 'Prototype', 'Error', 'ErrorKind')
MODEL_TRAITS = ('Basis', 'EnumerableBasis', 'Kernel', 'Optimiser', 'Combinators')
def model_types(D):
    T_ = D['types']; out = []
    for a in D['adts']:
        if not a.get('pub') or '<impl' in a['path'] or '::deserialize::' in a['path'] or '::serialize::' in a['path']: continue
        tr = {(i.get('trait') or '').split('::')[-1] for i in D['impls'] if T_[i['self']].get('path') == a['path']}
        if a['path'].split('::')[-1] in MODELS or tr & set(MODEL_TRAITS): out.append(a)
    return out
def is_param(T_, ti, a): return isinstance(ti, int) and T_[ti].get('k') == 'param'
def S03(S):
    for feat, want in (('default', ('Clone', 'Debug')), ('serde', ('Clone', 'Debug', 'Serialize', 'Deserialize'))):
        D = S.dumps.get(feat)
        if D is None: continue
        s = Session(D, S.tier); s.dumps = S.dumps
        for a in model_types(D):
            for w in want: s.guard('S03:%s' % a['path'], lambda: provides(s, D, a, w, feat))
        finish(S, s)
def provides(S, D, a, want, feat):
    T_ = D['types']; nm = name_of(a); rule = 'S03:%s: %s (%s)' % (nm, want, 'serialisation enabled' if feat == 'serde' else 'default features')
    fk = {'path': a['path'], 'sp': a.get('sp', '')}
    params = [g['name'] for g in a['generics'] if g['ty']]
    ims = [i for i in D['impls'] if (i.get('trait') or '').split('::')[-1] == want and (i.get('trait') or '').split('::')[0] in ('core', 'std', 'alloc', 'serde', 'serde_core') and T_[i['self']].get('path') == a['path'] and not i.get('negative')]
    if not ims: return S.put(rule, fk, 'violated', '%s does not implement %s' % (nm, want))
    gen = [i for i in ims if all(T_[x].get('k') == 'param' for x in T_[i['self']].get('args') or [] if isinstance(x, int)) and len(set(x for x in T_[i['self']].get('args') or [] if isinstance(x, int))) == len(params)]
    if not gen: return S.put(rule, fk, 'violated' if len(ims) == 1 else 'undecided', '%s is implemented only for %s' % (want, ', '.join(T_[i['self']]['s'] for i in ims)))
    im = gen[0]; extra, unknown = [], []
    names = [T_[x]['s'] for x in T_[im['self']].get('args') or [] if isinstance(x, int)]
    own = {re.sub(r'\s', '', x) for x in a.get('preds') or []}
    ren = dict(zip(names, params))
    for p in im['preds']:
        q = re.sub(r'\b(\w+)\b', lambda m: ren.get(m.group(1), m.group(1)), p)
        if re.sub(r'\s', '', q) in own: continue
        m = re.match(r"^(\w+): ([\w:]+)(<.*>)?$", p)
        if not m:
            (extra if re.match(r"^'\w+: 'static$", p) else unknown).append(p); continue
        t = m.group(2).split('::')[-1]
        if m.group(1) in names and t in ('Sized', want): continue
        if want == 'Deserialize' and t in ('DeserializeOwned',): unknown.append(p); continue
        (extra if m.group(1) in names else unknown).append(p)
    if extra: S.put(rule, fk, 'violated', 'needs more of its parameters than %s: %s' % (want, ', '.join(extra)))
    elif unknown: S.put(rule, fk, 'undecided', 'conditions not understood: %s' % ', '.join(unknown))
    else: S.put(rule, fk, 'proved', 'implemented for every parameter that implements it')
    fs = [f for f in S.D['fns'] if f.get('impl') == im['key'] and 'body' in f]
    S.analysed.update(f['key'] for f in fs)
    if feat == 'serde' and want in ('Clone', 'Debug'): return
    if want == 'Clone': S.guard(rule, lambda: copies(S, a, im, fs, rule))
    if want == 'Debug' and not im.get('derived'):
        for f in fs: S.guard(rule, lambda: prints(S, a, f, rule))
CELLS = re.compile(r'(^|::)(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Atomic\w*)$')
def aliased(P, ti, behind=False, seen=None):
    "types by which two copies would see each other's changes: an interior-mutable place behind a shared pointer"
    seen = set() if seen is None else seen
    if (ti, behind) in seen: return []
    seen.add((ti, behind))
    t = P.ty(ti); k = t.get('k'); out = []
    if k == 'ptr' and t.get('mut'): return ['raw pointer %s' % t['s']]
    if k in ('ref', 'slice', 'array') and isinstance(t.get('t'), int): return aliased(P, t['t'], behind or k == 'ref', seen)
    if k == 'tuple':
        for i in t['args']: out += aliased(P, i, behind, seen)
    if k == 'adt':
        if CELLS.search(t['path']) and behind: return ['%s behind a shared pointer' % t['s']]
        b = behind or t['path'].split('::')[-1] in ('Rc', 'Arc', 'Weak')
        for i in t.get('args') or []:
            if isinstance(i, int): out += aliased(P, i, b, seen)
        for a in P.D['adts']:
            if a['path'] == t['path']:
                for v in a['variants']:
                    for f in v['fields']: out += aliased(P, f['ty'], b, seen)
    return out
def copies(S, a, im, fs, rule):
    "a clone has equal fields, and shares no state with its original"
    P = effects.Prog(S.D)
    fk = {'path': a['path'], 'sp': a.get('sp', '')}
    shared = []
    for v in a['variants']:
        for fl in v['fields']:
            shared += ['field %s: %s' % (fl['name'], x) for x in aliased(P, fl['ty'])]
    S.put(rule + ': independent', fk, 'violated' if shared else 'proved', '; '.join(shared) or 'no field shares state between copies')
    if im.get('derived'): return
    for f in fs:
        if f.get('name') == 'clone':
            for vi, v in enumerate(a['variants']):
                x = field_values(S, a, 'fld')[vi]
                r = S.run(f, [x], I_=interp(S))
                S.eq(rule + ': equal copy', f, [(lib.digest(r.I, r.st, x), lib.digest(r.I, r.st, r.v))], run=r)
        elif f.get('name') == 'clone_from':
            for vi, v in enumerate(a['variants']):
                x = field_values(S, a, 'fld')[vi]; y = field_values(S, a, 'old')[vi]
                st = State(); py, px = Ref(st.new(y)), Ref(st.new(x))
                r = S.run(f, [py, px], I_=interp(S), st=st)
                S.eq(rule + ': equal copy', f, [(lib.digest(r.I, r.st, x), lib.digest(r.I, r.st, r.I.deref(r.st, py)))], run=r)
def prints(S, a, f, rule):
    "a hand-written Debug must not abort"
    for vi, v in enumerate(a['variants']):
        x = field_values(S, a, 'fld')[vi]
        r = S.run(f, [x, Opq(oname('formatter'), 'formatter')], I_=interp(S))
        if r.dead: S.put(rule + ': prints', f, 'violated', 'never returns normally'); continue
        st_ = [compare([(c, FALSE)], TRUE).status for c, si, w in r.panics]
        S.put(rule + ': prints', f, 'violated' if 'violated' in st_ else 'undecided' if any(x != 'proved' for x in st_) else 'proved', '; '.join('%s at %s' % (w, si) for c, si, w in r.panics)[:200])

# ------------------------------------------------------------------ equality of models
UNCOMPARED = ('LFA', 'SparseActivations', 'Features')     # the first two have no equality; features are compared by F08
def S04(S):
    for a in model_types(S.D) + [a for a in S.D['adts'] if a['path'].split('::')[-1] in ('Error', 'ErrorKind') and a.get('pub')]:
        if a['path'].split('::')[-1] in UNCOMPARED: continue
        S.guard('S04:%s' % a['path'], lambda: compares(S, a))
def compares(S, a):
    "equal exactly when every field is, and != the negation of =="
    T_ = S.D['types']; nm = name_of(a); rule = 'S04:%s' % nm
    fk = {'path': a['path'], 'sp': a.get('sp', '')}
    ims = [i for i in S.D['impls'] if (i.get('trait') or '') == 'core::cmp::PartialEq' and T_[i['self']].get('path') == a['path'] and not i.get('negative')]
    own = [i for i in ims if len(i.get('traitargs') or []) < 2 or i['traitargs'][0] == i['traitargs'][1]]
    if not own: return S.put(rule + ': can be compared', fk, 'violated', '%s does not implement PartialEq' % nm)
    for im in own:
        fs = {f['name']: f for f in S.D['fns'] if f.get('impl') == im['key'] and 'body' in f}
        S.analysed.update(f['key'] for f in fs.values())
        if im.get('derived') and 'ne' not in fs:
            S.put(rule + ': equal exactly when every field is', fk, 'proved', 'derived: every field is compared'); continue
        f, g = fs.get('eq'), fs.get('ne')
        if f is None: S.put(rule, fk, 'undecided', 'no eq'); continue
        xs, ys = field_values(S, a, 'x'), field_values(S, a, 'y')
        for i, x in enumerate(xs):
            for j, y in enumerate(ys):
                lab = '' if len(xs) == 1 else ' (%s, %s)' % (x.vname, y.vname)
                # everything differs, nothing does, and one field at a time
                cases = [('arbitrary', y)]
                if i == j: cases += [('equal', x)] + [('differing in %s' % x.fnames[k], x.with_(k, y.fields[k])) for k in range(len(x.fields))]
                for what, z in cases:
                    I_ = interp(S); st = State()
                    want = B(False) if i != j else and_(*[lib.veq(I_, st, p, q) for p, q in zip(x.fields, z.fields)])
                    r = S.run(f, [x, z], I_=interp(S))
                    S.eq('%s: equal exactly when every field is%s, %s' % (rule, lab, what), f, [(ts(r.v), want)], TRUE, r)
                    if g is not None:
                        r2 = S.run(g, [x, z], I_=interp(S))
                        S.eq('%s: != is the negation of ==%s, %s' % (rule, lab, what), g, [(ts(r2.v), not_(want))], TRUE, r2)
