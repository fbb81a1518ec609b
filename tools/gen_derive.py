#!/usr/bin/env python3
"""Generate types with combinations of the attributes of the derives, and what
they are documented to mean.

Attributes are scoped at random by mode and direction. `View` resolves them as
the documentation says: for each attribute by itself, what applies to the mode
wins over what applies to all, and within these what applies to the direction
wins. Definitions which the documentation does not allow, or gives no meaning
to, are thrown away.
"""
import random, os, sys

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'dtf')
MODES = ['Binary', 'Text', 'Odd']
DIRS = ['enc', 'dec']
ALL = [(m, d) for m in MODES for d in DIRS]

INTS = {'u8': 'U8', 'u16': 'U16', 'u32': 'U32', 'u64': 'U64', 'u128': 'U128', 'usize': 'Usize', 'i8': 'I8',
        'i16': 'I16', 'i32': 'I32', 'i64': 'I64'}


class Bad(Exception):
    pass


# ------------------------------------------------------------ types

def rust(t):
    k = t[0]
    if k == 'int': return t[1]
    if k == 'param': return 'T'
    if k in ('bool', 'char'): return k
    if k == 'str': return 'String'
    if k == 'ref': return "&'a str"
    if k == 'unit': return '()'
    if k == 'opt': return f'Option<{rust(t[1])}>'
    if k == 'seq': return f'Vec<{rust(t[1])}>'
    if k == 'arr': return f'[{rust(t[1])}; {t[2]}]'
    if k == 'map': return f'BTreeMap<String, {rust(t[1])}>'
    if k == 'tup': return '(' + ''.join(rust(x) + ', ' for x in t[1]) + ')'
    if k == 'rec': return t[1].ident + ('<u32>' if t[1].generic else '')
    raise Exception(k)


def lit(t):
    k = t[0]
    if k == 'int': return f'Ty::Int(Int::{INTS[t[1]]})'
    if k == 'param': return 'Ty::Int(Int::U32)'
    if k in ('bool', 'char', 'str', 'ref', 'unit'): return f'Ty::{k.capitalize()}'
    if k in ('opt', 'seq', 'map'): return f'Ty::{k.capitalize()}(&{lit(t[1])})'
    if k == 'arr': return f'Ty::Arr(&{lit(t[1])}, {t[2]})'
    if k == 'tup': return 'Ty::Tup(&[' + ', '.join(lit(x) for x in t[1]) + '])'
    if k == 'rec': return f'Ty::Rec(&DEF_{t[1].ident})'
    raise Exception(k)


def has_default(t):
    k = t[0]
    if k == 'rec' or k == 'param' or k == 'ref': return False
    if k == 'arr': return has_default(t[1])
    if k == 'tup': return all(has_default(x) for x in t[1])
    return True


def has_special(t):
    k = t[0]
    if k in ('int', 'bool', 'char', 'str'): return True
    return k in ('opt', 'seq') and has_special(t[1])


def blankable(t):
    return t[0] in ('int', 'bool', 'str', 'opt', 'seq', 'map')


# ------------------------------------------------------------ attributes

def lookup(attrs, key, m, d):
    a = attrs.get(key)
    if not a: return None
    for mode in (m, None):
        for dr in (d, None):
            if (mode, dr) in a:
                return a[(mode, dr)]
    return None


def scopes(r):
    x = r.random()
    if x < 0.55: return [(None, None)]
    if x < 0.72: return [(r.choice(MODES), None)]
    if x < 0.84: return [(None, None), (r.choice(MODES), None)]
    if x < 0.92: return [(r.choice(MODES), r.choice(DIRS))]
    if x < 0.96: return [(None, r.choice(DIRS))]
    return [(None, None), (r.choice(MODES), r.choice(DIRS))]


def put(r, attrs, key, value, sc=None):
    for s in sc or scopes(r):
        attrs.setdefault(key, {})[s] = value() if callable(value) else value


def attr_text(r, attrs, extra_odd=False):
    """Spread over attributes at random."""
    by = {}
    for key, vals in attrs.items():
        for s, v in vals.items():
            by.setdefault(s, []).append((key, v))
    if extra_odd and not any(s[0] == 'Odd' for s in by):
        by.setdefault(('Odd', None), [])
    lines = []
    for s in sorted(by, key=lambda s: (str(s[0]), str(s[1]))):
        items = []
        nametype = {}
        for key, v in by[s]:
            if key in ('name_type', 'name_method', 'name_format'):
                nametype[key] = v
            elif key == 'packing':
                items.append(v)
            elif key == 'name_all':
                items.append(f'name_all = "{v}"')
            elif key == 'name':
                nametype['name'] = v
            elif key == 'pattern':
                items.append('pattern = ' + v[0])
            elif key == 'skip':
                items.append('skip')
            elif key == 'default':
                items.append('default' if v is None else f'default = {v}')
            elif key == 'default_variant':
                items.append('default')
            elif key == 'skip_if':
                items.append(f'skip_encoding_if = {v}')
            elif key == 'with':
                items.append('with = dti::as_str')
            elif key == 'encoding':
                items.append(v)
            elif key in ('tag', 'content'):
                items.append(v[0])
            else:
                raise Exception(key)
        if nametype:
            parts = []
            if 'name_type' in nametype: parts.append(f'type = {nametype["name_type"]}')
            if 'name_method' in nametype: parts.append(f'method = "{nametype["name_method"]}"')
            if 'name_format' in nametype: parts.append(f'format_with = {nametype["name_format"]}')
            if parts: items.append('name(' + ', '.join(parts) + ')')
            if 'name' in nametype: items.append(f'name = {nametype["name"][0]}')
        r.shuffle(items)
        # several attributes of the same scope add up
        groups = [items]
        if len(items) > 1 and r.random() < 0.3:
            n = r.randrange(1, len(items))
            groups = [items[:n], items[n:]]
        for g in groups:
            head = []
            m, d = s
            if m is not None:
                head.append(m if m != 'Odd' else 'mode = Odd')
            if d is not None:
                head.append('encode_only' if d == 'enc' else 'decode_only')
            if head or g:
                lines.append('#[musli(' + ', '.join(head + g) + ')]')
    if len(lines) > 1:
        r.shuffle(lines)
    return lines


# ------------------------------------------------------------ names

CASES = ['PascalCase', 'camelCase', 'snake_case', 'SCREAMING_SNAKE_CASE', 'kebab-case', 'SCREAMING-KEBAB-CASE']


def words(ident):
    if '_' in ident or ident.islower():
        return [w for w in ident.split('_') if w]
    out = []
    for c in ident:
        if c.isupper() or not out: out.append(c)
        else: out[-1] += c
    return out


def case(kind, ident):
    ident = strip(ident)
    w = [x.lower() for x in words(ident)]
    if kind == 'name': return ident
    if kind == 'PascalCase': return ''.join(x.capitalize() for x in w)
    if kind == 'camelCase': return w[0] + ''.join(x.capitalize() for x in w[1:])
    if kind == 'snake_case': return '_'.join(w)
    if kind == 'SCREAMING_SNAKE_CASE': return '_'.join(w).upper()
    if kind == 'kebab-case': return '-'.join(w)
    if kind == 'SCREAMING-KEBAB-CASE': return '-'.join(w).upper()
    raise Exception(kind)


def name_rule(attrs, m, d, tuple_like):
    """(how names are made, their type) of a container or variant."""
    ty = lookup(attrs, 'name_type', m, d)
    all_ = lookup(attrs, 'name_all', m, d)
    method = lookup(attrs, 'name_method', m, d)
    if tuple_like and ty is None and all_ is None and method is None:
        return 'index', 'usize'
    if ty is None:
        all_ = all_ or ('name' if m == 'Text' else 'index')
        ty = 'usize' if all_ == 'index' else 'str'
        if method is not None and method != ('sized' if ty == 'usize' else 'unsized'):
            raise Bad('method')
        return all_, ty
    natural = {'str': 'unsized', '[u8]': 'unsized_bytes'}.get(ty, 'sized')
    if method is not None and method != natural:
        raise Bad('method')
    if all_ is None:
        all_ = 'name' if ty in ('str', '[u8]') else 'index'
    return all_, ty


KINDS = {'usize': 'K::Int(Int::Usize)', 'u8': 'K::Int(Int::U8)', 'i32': 'K::Int(Int::I32)', 'u64': 'K::Int(Int::U64)',
         'dti::Tag': 'K::Int(Int::U16)', 'str': 'K::Str', '[u8]': 'K::Bytes'}


def name_lit(ty, v):
    if ty == 'str': return 'Name::S(%s)' % rstr(v)
    if ty == '[u8]': return 'Name::B(b%s)' % rstr(v)
    if ty == 'dti::Tag': return f'Name::I(Int::U16, {v})'
    return f'Name::I(Int::{INTS[ty]}, {v})'


def rstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def name_src(ty, v):
    if ty == 'str': return rstr(v)
    if ty == '[u8]': return 'b' + rstr(v)
    if ty == 'dti::Tag': return f'dti::Tag({v})'
    return str(v)


STRS = ['alpha', 'two words', '', 'type2', 'émile', '0', 'x.y', 'a longer name than any other one here', 'q"uote', 'back\\slash']


def fresh(r, ty, used):
    for _ in range(200):
        if ty == 'str':
            v = r.choice(STRS)
            if r.random() < 0.5: v += str(r.randrange(20))
        elif ty == '[u8]': v = 'k' + r.choice(['', 'ey', ' x']) + str(r.randrange(50))
        elif ty == 'u8': v = r.choice([r.randrange(0, 10), r.randrange(10, 80), r.randrange(130, 256)])
        elif ty == 'i32': v = r.choice([r.randrange(-5, 60), -r.randrange(1, 100000)])
        elif ty == 'u64': v = r.choice([r.randrange(0, 80), r.randrange(1 << 33, 1 << 60)])
        elif ty == 'dti::Tag': v = r.randrange(0, 80)
        else: v = r.choice([r.randrange(0, 80), r.randrange(130, 400), r.randrange(1 << 33, 1 << 40)])
        if v not in used:
            used.add(v)
            return v
    raise Bad('names')


# ------------------------------------------------------------ definitions

class Field:
    def __init__(self, ident, ty):
        self.ident, self.ty, self.attrs = ident, ty, {}


class Body:
    """shape is named, tuple or unit"""
    def __init__(self, shape, fields):
        self.shape, self.fields = shape, fields


class Variant:
    def __init__(self, ident, body):
        self.ident, self.body, self.attrs = ident, body, {}


class Def:
    pass


class View:
    pass


def body_view(body, attrs, m, d, enum_tag=None):
    v = View()
    v.packing = lookup(attrs, 'packing', m, d) or 'tagged'
    if v.packing == 'untagged': raise Bad('untagged body')
    all_, v.kty = name_rule(attrs, m, d, body.shape == 'tuple')
    named = any(lookup(attrs, k, m, d) is not None for k in ('name_type', 'name_all', 'name_method'))
    v.unit = body.shape == 'unit'
    v.fields = []
    for i, f in enumerate(body.fields):
        w = View()
        w.ty = f.ty
        w.skip = lookup(f.attrs, 'skip', m, d) is not None
        w.skip_if = lookup(f.attrs, 'skip_if', m, d) is not None
        has = any(s in f.attrs.get('default', {}) for s in ((m, d), (m, None), (None, d), (None, None)))
        w.default = ('path' if lookup(f.attrs, 'default', m, d) else 'default') if has else None
        if has and (m, d) not in f.attrs['default'] and (m, None) not in f.attrs['default']:
            pass
        if w.default == 'default' and not has_default(f.ty): raise Bad('default')
        if w.skip and w.default != 'path' and not has_default(f.ty): raise Bad('skip')
        w.coding = 'Default'
        e = lookup(f.attrs, 'encoding', m, d)
        if lookup(f.attrs, 'with', m, d): w.coding = 'With'
        elif e == 'bytes': w.coding = 'Bytes'
        elif e == 'packed' and f.ty[0] in ('arr', 'tup'): w.coding = 'Packed'
        explicit = lookup(f.attrs, 'name', m, d)
        if explicit:
            if explicit[1] != v.kty: raise Bad('name type')
            w.name = explicit[2]
        elif all_ == 'index' or f.ident is None:
            if v.kty != 'usize': raise Bad('needs names')
            w.name = i
        else:
            if v.kty != 'str': raise Bad('needs names')
            w.name = case(all_, f.ident)
        w.accept = [w.name]
        p = lookup(f.attrs, 'pattern', m, d)
        if p:
            if p[1] != v.kty: raise Bad('pattern type')
            if w.name not in p[2] and d == 'dec': raise Bad('pattern without the name')
            w.accept = p[2]
        if v.packing != 'tagged' and (explicit or p): raise Bad('names in packs')
        v.fields.append(w)
    un = [f for f in v.fields if not f.skip]
    if v.packing == 'transparent':
        if len(un) != 1 or un[0].skip_if: raise Bad('transparent')
    if v.packing == 'packed':
        if named: raise Bad('named pack')
        if not un: raise Bad('empty pack')
        for f in un:
            if f.skip_if or f.default: raise Bad('pack')
            if f.ty[0] not in ('int', 'bool', 'char', 'str', 'param'): raise Bad('pack of more than leaves')
    if v.packing == 'tagged':
        seen = set()
        for f in un:
            for a in set(f.accept) | {f.name}:
                if a in seen: raise Bad('names collide')
                seen.add(a)
    v.entry_names = [a for f in un for a in f.accept]
    return v


def map_key_type(ty, m, d):
    """The key type and names of what is a map in this mode."""
    if ty[0] != 'rec': return None
    v = ty[1].views[(m, d)]
    if ty[1].kind != 'struct' or v.packing != 'tagged': return None
    return v


def category(v):
    """What a document of the body looks like at first sight."""
    un = [f for f in v.fields if not f.skip]
    if v.packing == 'transparent':
        f = un[0]
        if f.coding == 'With': return 'str'
        if f.coding != 'Default': return None
        k = f.ty[0]
        if k in ('int', 'param'): return 'int'
        if k in ('str', 'bool'): return k
        if k == 'seq': return 'seq'
        return None
    if v.packing == 'tagged':
        req = tuple(sorted(str(f.name) for f in un if f.default is None))
        return ('map', v.kty, req) if req else None
    return None


def resolve(df):
    df.views = {}
    for m, d in ALL:
        if df.kind == 'struct':
            for k in ('tag', 'content'):
                if lookup(df.attrs, k, m, d): raise Bad('tag')
            df.views[(m, d)] = body_view(df.body, df.attrs, m, d)
            continue
        v = View()
        packing = lookup(df.attrs, 'packing', m, d) or 'tagged'
        if packing not in ('tagged', 'untagged'): raise Bad('packing')
        all_, v.kty = name_rule(df.attrs, m, d, False)
        tag = lookup(df.attrs, 'tag', m, d)
        content = lookup(df.attrs, 'content', m, d)
        def cfg(x):
            # (source, type or None for inference, value)
            return x
        if tag and packing == 'untagged': raise Bad('tagged and untagged')
        if content and not tag: raise Bad('content')
        if tag and content: v.tagging = ('Adjacent', tag, content)
        elif tag: v.tagging = ('Internal', tag)
        elif all(x.body.shape == 'unit' or x.body.shape == 'tuple' and not x.body.fields for x in df.variants):
            if packing == 'untagged': raise Bad('untagged and empty')
            v.tagging = ('Empty',)
        elif packing == 'untagged': v.tagging = ('Untagged',)
        else: v.tagging = ('External',)
        if v.tagging[0] == 'Adjacent' and tag[1] != content[1]: raise Bad('tag types')
        if v.tagging[0] == 'Adjacent' and tag[2] == content[2]: raise Bad('tag equals content')
        v.variants = []
        v.fallback = None
        seen = set()
        for i, x in enumerate(df.variants):
            w = View()
            explicit = lookup(x.attrs, 'name', m, d)
            if explicit:
                if explicit[1] != v.kty: raise Bad('name type')
                w.name = explicit[2]
            elif all_ == 'index':
                if v.kty != 'usize': raise Bad('needs names')
                w.name = i
            else:
                if v.kty != 'str': raise Bad('needs names')
                w.name = case(all_, x.ident)
            w.accept = [w.name]
            p = lookup(x.attrs, 'pattern', m, d)
            if p:
                if p[1] != v.kty: raise Bad('pattern type')
                if w.name not in p[2] and d == 'dec': raise Bad('pattern without the name')
                w.accept = p[2]
            for a in set(w.accept) | {w.name}:
                if a in seen: raise Bad('variants collide')
                seen.add(a)
            if lookup(x.attrs, 'default_variant', m, d):
                if x.body.fields or v.fallback is not None or v.tagging[0] == 'Untagged': raise Bad('fallback')
                v.fallback = i
            w.body = body_view(x.body, x.attrs, m, d)
            if tag and w.body.packing == 'packed': raise Bad('packed variant')
            if v.tagging[0] == 'Internal':
                kt, kn = tag[1], tag[2]
                if w.body.packing == 'tagged':
                    if not w.body.unit:
                        if w.body.kty != kt: raise Bad('key types')
                        if kn in w.body.entry_names: raise Bad('tag collides')
                else:
                    un = [f for f in w.body.fields if not f.skip]
                    inner = map_key_type(un[0].ty, m, d)
                    if not inner or un[0].coding != 'Default' or inner.unit: raise Bad('transparent')
                    if inner.kty != kt or kn in inner.entry_names: raise Bad('key types')
                if df.generic: raise Bad('generic')
            v.variants.append(w)
        if v.tagging[0] == 'Untagged':
            cats = [category(w.body) for w in v.variants]
            if None in cats or len(set(cats)) != len(cats): raise Bad('untagged')
            # maps must not be contained in one another
            maps = [set(c[2]) for c in cats if c[0] == 'map']
            for i, a in enumerate(maps):
                for j, b in enumerate(maps):
                    if i != j and a <= b: raise Bad('untagged maps')
            if len({c[1] for c in cats if c[0] == 'map'}) > 1: raise Bad('untagged maps')
        df.views[(m, d)] = v
    df.lifetime = any('ref' == f.ty[0] for f in all_fields(df))
    return df


def all_fields(df):
    if df.kind == 'struct': return df.body.fields
    return [f for v in df.variants for f in v.body.fields]


# ------------------------------------------------------------ generation

FIELDS = ['name', 'age', 'first_name', 'last_seen_at', 'id', 'x', 'y', 'kind', 'value', 'the_long_one', 'items', 'flag',
          'r#type', 'note_to_self', 'b2b', 'data']
VARIANTS = ['Alpha', 'FirstVariant', 'Other', 'VeryLongName', 'X', 'Empty', 'Request', 'ReplyTo', 'B2']


def leaf(r):
    return r.choices([('int', r.choice(list(INTS))), ('int', 'u32'), ('bool',), ('char',), ('str',)], [6, 3, 2, 1, 4])[0]


def optable(df):
    """Whether options of it can be told apart from it being absent."""
    for v in df.views.values():
        if df.kind == 'struct':
            if v.packing == 'transparent': return False
        elif v.tagging[0] == 'Untagged': return False
    return True


def field_type(r, done, gen):
    x = r.random()
    if gen and x < 0.3: return r.choice([('param',), ('param',), ('seq', ('param',)), ('opt', ('param',))])
    if x < 0.55: return leaf(r)
    if x < 0.62: return ('opt', leaf(r))
    if x < 0.68: return ('seq', leaf(r))
    if x < 0.72: return ('arr', leaf(r), r.randrange(0, 5))
    if x < 0.75: return ('arr', ('int', 'u8'), r.choice([1, 2, 3, 4, 8]))
    if x < 0.78: return ('seq', ('int', 'u8'))
    if x < 0.81: return ('map', leaf(r))
    if x < 0.84: return ('tup', [leaf(r) for _ in range(r.randrange(1, 4))])
    if x < 0.86: return ('unit',)
    if done:
        d = r.choice(done)
        y = r.random()
        t = ('rec', d)
        if y < 0.5: return t
        if y < 0.65: return ('seq', t)
        if y < 0.75: return ('map', t)
        if y < 0.9 and optable(d): return ('opt', t)
        return t
    return leaf(r)


def body(r, done, gen, shape, n):
    if shape == 'unit': return Body('unit', [])
    names = r.sample(FIELDS, n)
    fs = []
    for i in range(n):
        fs.append(Field(names[i] if shape == 'named' else None, field_type(r, done, gen)))
    return Body(shape, fs)


def strip(ident):
    return ident[2:] if ident and ident.startswith('r#') else ident


def field_attrs(r, f, heavy):
    t = f.ty
    a = f.attrs
    if r.random() < 0.12 * heavy and (has_default(t) or has_special(t)):
        put(r, a, 'skip', True)
        if not has_default(t) or has_special(t) and r.random() < 0.5:
            put(r, a, 'default', 'dti::special', [(None, None)])
    elif r.random() < 0.25 * heavy and (has_default(t) or has_special(t)):
        def val():
            if has_special(t) and (not has_default(t) or r.random() < 0.5): return 'dti::special'
            return None
        put(r, a, 'default', val)
        if blankable(t) and r.random() < 0.5: put(r, a, 'skip_if', skipper(r, t))
    elif r.random() < 0.1 * heavy and blankable(t):
        put(r, a, 'skip_if', skipper(r, t))
    if t == ('int', 'u32') and r.random() < 0.25: put(r, a, 'with', True)
    if t == ('seq', ('int', 'u8')) or t[0] == 'arr' and t[1] == ('int', 'u8') and t[2] in (1, 2, 3, 4, 8):
        if r.random() < 0.6: put(r, a, 'encoding', 'bytes')
    if t[0] in ('arr', 'tup') and 'encoding' not in a and r.random() < 0.5: put(r, a, 'encoding', 'packed')
    if t[0] in ('map', 'seq', 'opt') and 'encoding' not in a and not gen_in(t) and r.random() < 0.2:
        if t[0] == 'map': put(r, a, 'encoding', 'trace')


def gen_in(t):
    return t[0] == 'param' or t[0] in ('opt', 'seq', 'map', 'arr') and gen_in(t[1])


def skipper(r, t):
    if t[0] == 'opt' and r.random() < 0.5: return 'Option::is_none'
    if t[0] == 'seq' and r.random() < 0.5: return 'Vec::is_empty'
    if t[0] == 'str' and r.random() < 0.5: return 'String::is_empty'
    return 'dti::blank'


def container_names(r, attrs, p):
    """How fields or variants are named."""
    if r.random() > p: return
    x = r.random()
    if x < 0.55:
        put(r, attrs, 'name_all', lambda: r.choice(CASES + ['name', 'index', 'index', 'name']))
    elif x < 0.62:
        sc = scopes(r)
        put(r, attrs, 'name_type', 'str', sc)
        if r.random() < 0.5: put(r, attrs, 'name_all', lambda: r.choice(CASES), sc)
        if r.random() < 0.3: put(r, attrs, 'name_method', 'unsized', sc)
    elif x < 0.7:
        put(r, attrs, 'name_type', 'usize')
    else:
        ty = r.choice(['[u8]', 'u8', 'i32', 'u64', 'dti::Tag', 'str'])
        sc = scopes(r)
        put(r, attrs, 'name_type', ty, sc)
        if ty == '[u8]': put(r, attrs, 'name_format', 'dti::Show::new', sc)


def explicit_names(r, attrs, things, tuple_like, p):
    """Give names where they are needed, and some where they are not."""
    rules = {md: name_rule(attrs, md[0], md[1], tuple_like) for md in ALL}
    used = {md: set() for md in ALL}
    for md, (all_, ty) in rules.items():
        for i, t in enumerate(things):
            if ty == 'usize': used[md].add(i)
            elif ty == 'str' and all_ != 'index' and t.ident: used[md].add(case(all_, t.ident))

    def give(t, scope, mds):
        ty = rules[mds[0]][1]
        u = set().union(*(used[x] for x in mds))
        v = fresh(r, ty, u)
        for x in mds: used[x].add(v)
        t.attrs.setdefault('name', {})[scope] = (name_src(ty, v), ty, v)

    for t in things:
        need = [md for md in ALL if rules[md][1] not in ('usize', 'str') or rules[md][1] == 'str' and t.ident is None]
        if len(need) == 6 and len({rules[x][1] for x in need}) == 1 and r.random() < 0.8:
            give(t, (None, None), need)
        else:
            for m in MODES:
                mine = [x for x in need if x[0] == m]
                if len(mine) == 2 and rules[mine[0]][1] == rules[mine[1]][1]: give(t, (m, None), mine)
                else:
                    for x in mine: give(t, x, [x])
        if not need and r.random() < p:
            if len({rules[x][1] for x in ALL}) == 1 and r.random() < 0.6:
                give(t, (None, None), ALL)
            m = r.choice(MODES)
            mine = [(m, 'enc'), (m, 'dec')]
            if rules[mine[0]][1] == rules[mine[1]][1]: give(t, (m, None), mine)
            elif r.random() < 0.5: give(t, mine[0], [mine[0]])
        if need and r.random() < 0.1:
            x = r.choice(need)
            give(t, x, [x])
    # patterns, in one mode
    for i, t in enumerate(things):
        if r.random() > 0.15: continue
        m = r.choice(MODES)
        md = (m, 'dec')
        all_, ty = rules[md]
        e = lookup(t.attrs, 'name', m, 'dec')
        if e: name = e[2]
        elif ty == 'usize': name = i
        elif ty == 'str' and all_ != 'index' and t.ident: name = case(all_, t.ident)
        else: continue
        vals = [name]
        src = [name_src(ty, name)]
        if ty in ('usize', 'u8', 'i32', 'u64') and r.random() < 0.5:
            hi = name
            while hi < name + 4 and hi + 1 not in used[md] and hi + 1 < 250: hi += 1
            if hi > name:
                vals = list(range(name, hi + 1))
                used[md].update(vals)
                src = [f'{name}..={hi}']
        for _ in range(r.randrange(0, 3)):
            v = fresh(r, ty, used[md])
            vals.append(v)
            src.append(name_src(ty, v))
        if any(isinstance(v, int) and v < 0 for v in vals) and ty == 'i32': pass
        text = src[0] if len(src) == 1 else '(' + ' | '.join(src) + ')'
        t.attrs['pattern'] = {(m, r.choice([None, 'dec'])): (text, ty, vals)}


def make_struct(r, n, done):
    df = Def()
    df.kind, df.ident, df.attrs = 'struct', f'S{n}', {}
    df.generic = r.random() < 0.06
    shape = r.choices(['named', 'tuple', 'unit'], [8, 3, 0.3])[0]
    style = r.choices(['tagged', 'packed', 'transparent', 'mixed'], [8, 1.5, 1.5, 1])[0] if shape != 'unit' else 'tagged'
    if style in ('packed', 'mixed'):
        k = r.randrange(1, 5)
        df.body = Body(shape, [Field(x if shape == 'named' else None, leaf(r)) for x in r.sample(FIELDS, k)])
        sc = [(None, None)] if style == 'packed' else scopes(r)
        put(r, df.attrs, 'packing', 'packed', sc)
    elif style == 'transparent':
        df.body = body(r, done, df.generic, shape, r.choices([1, 2], [4, 1])[0])
        put(r, df.attrs, 'packing', 'transparent', [(None, None)] if r.random() < 0.7 else scopes(r))
    else:
        df.body = body(r, done, df.generic, shape, r.choices([0, 1, 2, 3, 4, 5, 6], [1, 3, 4, 5, 4, 3, 2])[0])
        if r.random() < 0.05:
            for f in df.body.fields[:1]: f.ty = ('ref',)
            df.generic = False
    if style == 'tagged':
        container_names(r, df.attrs, 0.45)
    if df.generic and not any(gen_in(f.ty) for f in df.body.fields): df.generic = False
    if not df.generic:
        for f in df.body.fields:
            if gen_in(f.ty): raise Bad('generic')
    for f in df.body.fields: field_attrs(r, f, 1.0 if style == 'tagged' else 0.5)
    if style != 'packed': explicit_names(r, df.attrs, named(df.body), shape == 'tuple', 0.2)
    return resolve(df)


def named(b):
    for f in b.fields: pass
    return b.fields


def tag_cfg(r, key, ty=None):
    """(type, value) with all ways to write it."""
    ty = ty or r.choice(['str', 'str', 'str', 'usize', '[u8]', 'dti::Tag', 'i32', 'u8'])
    pool = {'tag': ['type', 't', 'kind of', 'tag'], 'content': ['data', 'c', 'content of']}[key]
    v = r.choice(pool) if ty in ('str', '[u8]') else (1 if key == 'tag' else 2) * 30 + r.randrange(0, 9)
    s = name_src(ty, v)
    fmt = ', format_with = dti::Show::new' if ty == '[u8]' else ''
    if ty in ('str', '[u8]', 'usize') and r.random() < 0.7 and not fmt:
        text = f'{key} = {s}'
    elif ty in ('str', '[u8]', 'usize') and r.random() < 0.5:
        text = f'{key}(value = {s}{fmt})'
    else:
        text = f'{key}(value = {s}, type = {ty}{fmt})'
    return (text, ty, v)


def make_enum(r, n, done):
    df = Def()
    df.kind, df.ident, df.attrs = 'enum', f'E{n}', {}
    df.generic = False
    style = r.choices(['external', 'internal', 'adjacent', 'untagged', 'unit'], [5, 4, 3, 2, 1.5])[0]
    count = r.choices([1, 2, 3, 4], [1, 4, 4, 2])[0]
    idents = r.sample(VARIANTS, count)
    df.variants = []
    if style == 'unit':
        df.variants = [Variant(i, Body(r.choices(['unit', 'tuple'], [5, 1])[0], [])) for i in idents]
    elif style == 'untagged':
        pool = [('int', r.choice(['u32', 'u64', 'i32', 'u8'])), ('str',), ('bool',), ('seq', ('int', 'u16')), 'map', 'map']
        r.shuffle(pool)
        for i, k in zip(idents, pool):
            if k == 'map':
                v = Variant(i, body(r, done, False, 'named', r.randrange(1, 4)))
            else:
                v = Variant(i, Body(r.choice(['named', 'tuple']), []))
                v.body.fields = [Field('value' if v.body.shape == 'named' else None, k)]
                v.attrs['packing'] = {(None, None): 'transparent'}
            df.variants.append(v)
        put(r, df.attrs, 'packing', 'untagged', [(None, None)] if r.random() < 0.6 else None)
    else:
        for i in idents:
            x = r.random()
            internal = style == 'internal'
            if x < 0.2: v = Variant(i, Body(r.choices(['unit', 'tuple', 'named'], [4, 1, 1])[0], []))
            elif x < 0.6: v = Variant(i, body(r, done, False, 'named', r.randrange(1, 5)))
            elif x < 0.75 and not internal: v = Variant(i, body(r, done, False, 'tuple', r.randrange(1, 4)))
            elif x < 0.83 and not internal:
                shape = r.choice(['named', 'tuple'])
                k = r.randrange(1, 4)
                v = Variant(i, Body(shape, [Field(y if shape == 'named' else None, leaf(r)) for y in r.sample(FIELDS, k)]))
                v.attrs['packing'] = {(None, None): 'packed'}
            else:
                shape = r.choice(['named', 'tuple'])
                cands = [d for d in done if d.kind == 'struct' and not d.generic and not d.lifetime
                         and all(w.packing == 'tagged' and not w.unit for w in d.views.values())]
                if internal or r.random() < 0.4:
                    if not cands: raise Bad('nothing to be transparent over')
                    t = ('rec', r.choice(cands))
                else: t = field_type(r, done, False)
                v = Variant(i, Body(shape, [Field('value' if shape == 'named' else None, t)]))
                v.attrs['packing'] = {(None, None): 'transparent'}
            df.variants.append(v)
    for v in df.variants:
        for f in v.body.fields:
            if gen_in(f.ty): raise Bad('generic')

    sc = None
    if style in ('internal', 'adjacent'):
        sc = r.choices([[(None, None)], [('Text', None)], [('Odd', None)], scopes(r)], [4, 3, 1, 1])[0]
        tag = tag_cfg(r, 'tag')
        put(r, df.attrs, 'tag', tag, sc)
        if style == 'adjacent': put(r, df.attrs, 'content', tag_cfg(r, 'content', tag[1]), sc)
        if style == 'internal':
            # the keys of fields have to be of the type of the tag
            for v in df.variants:
                if 'packing' in v.attrs or not v.body.fields and v.body.shape == 'unit': continue
                ty = tag[1]
                if ty == 'str' and r.random() < 0.6: put(r, v.attrs, 'name_all', lambda: r.choice(CASES + ['name']), sc)
                else:
                    put(r, v.attrs, 'name_type', ty, sc)
                    if ty == '[u8]': put(r, v.attrs, 'name_format', 'dti::Show::new', sc)
    container_names(r, df.attrs, 0.4 if style not in ('untagged',) else 0.15)
    explicit_names(r, df.attrs, df.variants, False, 0.2)
    if r.random() < 0.3 and style != 'untagged':
        empty = [v for v in df.variants if not v.body.fields]
        if empty: put(r, r.choice(empty).attrs, 'default_variant', True)
    for v in df.variants:
        for f in v.body.fields: field_attrs(r, f, 0.8 if style != 'untagged' else 0.4)
        if 'packing' not in v.attrs:
            if not any(k in v.attrs for k in ('name_all', 'name_type')) and v.body.shape != 'unit': container_names(r, v.attrs, 0.25)
            explicit_names(r, v.attrs, v.body.fields, v.body.shape == 'tuple', 0.15)
        elif v.attrs['packing'] == {(None, None): 'transparent'}: pass
    return resolve(df)


# ------------------------------------------------------------ output

def emit_body(v, tab):
    p = {'tagged': 'Tagged', 'packed': 'Packed', 'transparent': 'Transparent'}[v.packing]
    fs = []
    for f in v.fields:
        d = {None: 'Dflt::No', 'default': 'Dflt::Default', 'path': f'Dflt::Path(dti::special_val::<{rust(f.ty)}>)'}[f.default]
        acc = ', '.join(name_lit(v.kty, a) for a in f.accept)
        fs.append(f'Field {{ name: {name_lit(v.kty, f.name)}, accept: &[{acc}], skip: {str(f.skip).lower()}, default: {d}, '
                  f'skip_if: {str(f.skip_if).lower()}, coding: Coding::{f.coding} }}')
    inner = ''.join(f'\n{tab}    {x},' for x in fs)
    if fs: inner += '\n' + tab
    return f'Body {{ packing: Packing::{p}, kty: {KINDS[v.kty]}, unit: {str(v.unit).lower()}, fields: &[{inner}] }}'


def emit_view(df, v):
    if df.kind == 'struct': return f'View::Struct({emit_body(v, "            ")})'
    t = v.tagging
    if t[0] in ('Empty', 'External', 'Untagged'): tg = f'Tagging::{t[0]}'
    elif t[0] == 'Internal': tg = f'Tagging::Internal({name_lit(t[1][1], t[1][2])}, {KINDS[t[1][1]]})'
    else: tg = f'Tagging::Adjacent({name_lit(t[1][1], t[1][2])}, {name_lit(t[2][1], t[2][2])}, {KINDS[t[1][1]]})'
    vs = []
    for w in v.variants:
        acc = ', '.join(name_lit(v.kty, a) for a in w.accept)
        vs.append(f'Var {{ name: {name_lit(v.kty, w.name)}, accept: &[{acc}], body: {emit_body(w.body, "                ")} }}')
    inner = ''.join(f'\n                {x},' for x in vs)
    fb = 'None' if v.fallback is None else f'Some({v.fallback})'
    return f'View::Enum {{ tagging: {tg}, kty: {KINDS[v.kty]}, fallback: {fb}, variants: &[{inner}\n            ] }}'


def field_src(r, f, tab, public):
    out = ''
    for a in attr_text(r, f.attrs): out += f'{tab}{a}\n'
    name = f'{f.ident}: ' if f.ident else ''
    return out + f'{tab}{"pub " if public else ""}{name}{rust(f.ty)},\n'


def emit(r, df):
    args = "<'a>" if df.lifetime else '<T>' if df.generic else ''
    inst = "<'_>" if df.lifetime else '<u32>' if df.generic else ''
    src = ''
    for a in attr_text(r, df.attrs, True): src += a + '\n'
    if df.kind == 'struct':
        b = df.body
        if any(v.packing == 'packed' for v in df.views.values()) and r.random() < 0.5: src += '#[repr(C)]\n'
        if b.shape == 'unit': src += f'pub struct {df.ident};\n'
        elif b.shape == 'tuple': src += f'pub struct {df.ident}{args}(\n' + ''.join(field_src(r, f, '    ', True) for f in b.fields) + ');\n'
        else: src += f'pub struct {df.ident}{args} {{\n' + ''.join(field_src(r, f, '    ', True) for f in b.fields) + '}\n'
    else:
        src += f'pub enum {df.ident}{args} {{\n'
        for v in df.variants:
            for a in attr_text(r, v.attrs): src += f'    {a}\n'
            b = v.body
            if b.shape == 'unit': src += f'    {v.ident},\n'
            elif b.shape == 'tuple': src += f'    {v.ident}(\n' + ''.join(field_src(r, f, '        ', False) for f in b.fields) + '    ),\n'
            else: src += f'    {v.ident} {{\n' + ''.join(field_src(r, f, '        ', False) for f in b.fields) + '    },\n'
        src += '}\n'
    out = '#[derive(Encode, Decode)]\n' + src + '\n'

    def build(path, b):
        if b.shape == 'unit': return path
        if b.shape == 'tuple': return path + '(' + ', '.join(f'dti::get(&f[{i}])' for i in range(len(b.fields))) + ')'
        return path + ' { ' + ', '.join(f'{f.ident}: dti::get(&f[{i}])' for i, f in enumerate(b.fields)) + ' }'

    def unbuild(path, b):
        if b.shape == 'unit': return path, []
        vs = [f'v{i}' for i in range(len(b.fields))]
        if b.shape == 'tuple': return path + '(' + ', '.join(vs) + ')', vs
        return path + ' { ' + ', '.join(f'{f.ident}: {x}' for f, x in zip(b.fields, vs)) + ' }', vs

    vs = [('Self', df.body)] if df.kind == 'struct' else [(f'Self::{v.ident}', v.body) for v in df.variants]
    if df.kind == 'struct' and df.body.shape == 'unit': vs = [(df.ident, df.body)]
    out += f'impl Model for {df.ident}{inst} {{\n    fn from_val(v: &Val) -> Self {{\n        let f = dti::fields(v);\n        let _ = f;\n        match dti::variant(v) {{\n'
    for i, (p, b) in enumerate(vs):
        pat = str(i) if i + 1 < len(vs) else '_'
        out += f'            {pat} => {build(p, b)},\n'
    out += '        }\n    }\n    fn to_val(&self) -> Val {\n        match self {\n'
    for i, (p, b) in enumerate(vs):
        pat, xs = unbuild(p, b)
        out += f'            {pat} => dti::rec({i}, vec![{", ".join(x + ".to_val()" for x in xs)}]),\n'
    out += '        }\n    }\n}\n\n'
    shapes = []
    for _, b in vs: shapes.append('&[' + ', '.join(lit(f.ty) for f in b.fields) + ']')
    out += f'pub static DEF_{df.ident}: Def = Def {{\n    name: "{df.ident}",\n    source: r###"{src}"###,\n    shapes: &[{", ".join(shapes)}],\n    views: [\n'
    for m in MODES:
        out += '        [\n'
        for d in DIRS: out += f'            {emit_view(df, df.views[(m, d)])},\n'
        out += '        ],\n'
    out += f'    ],\n    enc: dti::encs!({df.ident}{inst}),\n    dec: dti::decs!({df.ident}{inst}),\n}};\n\n'
    return out


def simplify(df):
    """What it is about, to see to variety."""
    out = set()
    def attrs(where, a):
        for k, v in a.items():
            for s, x in v.items():
                out.add((where, k, s[0], s[1]))
                if k == 'name_all': out.add((where, k, x))
                if k == 'name_type': out.add((where, k, x))
                if k == 'packing': out.add((where, k, x, s[0]))
                if k == 'encoding': out.add((where, k, x))
                if k in ('tag', 'content'): out.add((where, k, x[1], x[0].split('(')[0]))
    attrs(df.kind, df.attrs)
    for md, v in df.views.items():
        if df.kind == 'enum':
            out.add(('tagging', v.tagging[0], md))
            for w in v.variants:
                out.add(('body', v.tagging[0], w.body.packing, w.body.unit, bool(w.body.fields), md[0]))
                out.add(('fallback', v.tagging[0], v.fallback is not None, md[0]))
                if any(f.skip for f in w.body.fields): out.add(('skip in', v.tagging[0]))
                if any(f.skip_if for f in w.body.fields): out.add(('skip if in', v.tagging[0], md))
                if len(w.accept) > 1: out.add(('pattern in', v.tagging[0], v.kty))
                if any(len(f.accept) > 1 for f in w.body.fields): out.add(('field pattern in', v.tagging[0]))
        else:
            for f in v.fields:
                out.add(('field', v.packing, f.coding, f.ty[0], f.skip))
                out.add(('fieldx', v.packing, f.default, f.skip, f.skip_if, md))
                if len(f.accept) > 1: out.add(('pattern', v.kty, md[0]))
            out.add(('struct', df.body.shape, v.packing, v.kty, md[0]))
    if df.kind == 'struct':
        for f in df.body.fields: attrs('field', f.attrs)
    else:
        for v in df.variants:
            attrs('variant', v.attrs)
            for f in v.body.fields: attrs('vfield', f.attrs)
    return out


def main():
    per = int(sys.argv[1]) if len(sys.argv) > 1 else 30
    total = {}
    for crate, name in enumerate('abcdef'):
        r = random.Random(1000 + crate)
        done, seen, out = [], set(), ''
        rejected = 0
        for n in range(per):
            # of several candidates the one which adds most that is new
            best = None
            tries = 0
            got = 0
            while got < 12:
                tries += 1
                if tries > 4000: break
                try:
                    c = (make_enum if r.random() < 0.55 else make_struct)(r, n, [d for d in done if not d.lifetime])
                except Bad as e:
                    total[str(e)] = total.get(str(e), 0) + 1
                    rejected += 1
                    continue
                got += 1
                new = len(simplify(c) - seen)
                if best is None or new > best[0]: best = (new, c)
            df = best[1]
            done.append(df)
            seen |= simplify(df)
            out += emit(r, df)
        os.makedirs(f'{OUT}/{name}/src', exist_ok=True)
        head = ('//! Generated by tools/gen_derive.py.\n#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals)]\nuse std::collections::BTreeMap;\n\n'
                'use dti::{Body, Coding, Def, Dflt, Field, Int, Model, Name, Odd, Packing, Tagging, Ty, Val, Var, View, K};\n'
                'use musli::{Decode, Encode};\n\n')
        tail = 'pub static DEFS: &[&Def] = &[\n' + ''.join(f'    &DEF_{d.ident},\n' for d in done) + '];\n'
        open(f'{OUT}/{name}/src/lib.rs', 'w').write(head + out + tail)
        open(f'{OUT}/{name}/Cargo.toml', 'w').write(
            f'[package]\nname = "dtf-{name}"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n\n[dependencies]\n'
            'dti = { path = "../../dti" }\nmusli = { path = "/repo/crates/musli", features = ["test"] }\n')
        print(name, len(done), 'types', len(seen), 'traits', rejected, 'rejected')
    if '-v' in sys.argv: print(sorted(total.items(), key=lambda x: -x[1]))


main()
