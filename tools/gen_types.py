#!/usr/bin/env python3
"""Generates derived types for decmon: definitions (types_body.rs, included
twice: with byte spans and with line spans) and their schemas (schema.rs).
The output is committed; the script is only needed to change the set."""
import re
import os
import random
import sys

# gen_types.py [SEED DIR]: another set of random types, into another directory
R = random.Random(int(sys.argv[1]) if len(sys.argv) > 2 else 20240607)
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = sys.argv[2] if len(sys.argv) > 2 else os.path.join(HERE, '..', 'harness', 'decmon', 'src')

INTS = 'u8 i8 u16 i16 u32 i32 u64 i64 usize isize'.split()


def lit(s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += '\\' + c
        elif ' ' <= c <= '~':
            out += c
        else:
            out += '\\u{%x}' % ord(c)
    return out + '"'


class Sc:
    """Scalar: base type, wrappers (outermost first), mode"""
    def __init__(self, base, wraps=(), mode='', rng=None):
        self.base, self.wraps, self.mode = base, list(wraps), mode

    def w(self, plain):
        return [x for x in self.wraps if x == 'Option'] if plain else self.wraps

    def rust(self, plain=False):
        t = self.base
        for w in reversed(self.w(plain)):
            t = f'Spanned<{t}, {w[8:]}>' if w.startswith('Spanned:') else f'{w}<{t}>'
        return t

    def basesc(self):
        b = self.base
        if self.mode == 'str':
            return {'String': 'Sc::FromStr(Fs::Str)', 'u16': 'Sc::FromStr(Fs::U16)', 'std::net::SocketAddr': 'Sc::FromStr(Fs::Addr)',
                    'Even': 'Sc::FromStr(Fs::Even)', 'char': 'Sc::FromStr(Fs::Char)'}[b]
        if self.mode == 'bytes':
            return 'Sc::Bytes(%s)' % ('true' if b == 'Short' else 'false')
        if b in INTS:
            return f'Sc::Int("{b}")'
        return {'f64': 'Sc::F64', 'f32': 'Sc::F32', 'bool': 'Sc::Bool', 'String': 'Sc::Str("String")', 'PathBuf': 'Sc::Str("PathBuf")',
                'Arc<str>': 'Sc::Str("Arc<str>")', 'Arc<Path>': 'Sc::Str("Arc<Path>")', 'Color': 'Sc::Enum("Color", COLOR)',
                'Level': 'Sc::Enum("Level", LEVEL)', 'Only': 'Sc::Enum("Only", ONLY)'}[b]

    def inner(self, ws):
        e = self.basesc()
        for w in reversed(ws):
            if w == 'Option':
                e = f'Sc::Opt(Box::new({e}))'
            elif w.startswith('Spanned:'):
                e = f'Sc::Spanned(Box::new({e}), SpanTy::{"Native" if w[8:] == "SP" else "Byte"})'
        return e

    def opt(self, plain=False):
        ws = self.w(plain)
        return bool(ws) and ws[0] == 'Option'

    def sc(self, plain=False, as_field=True):
        """schema; leading Option is a separate flag of fields"""
        ws = self.w(plain)
        return self.inner(ws[1:] if as_field and self.opt(plain) else ws)

    def sp(self, plain=False):
        return any(w.startswith('Spanned') for w in self.w(plain))

    def attr(self):
        return ', ' + self.mode if self.mode else ''

    def dump(self, e, plain=False):
        """e: expression of a reference"""
        if self.base in ('Vec<u8>', 'Box<[u8]>'):
            if self.opt(plain):
                return f'{e}.as_ref().map_or(Val::None, |b| some(bytes(b)))'
            return f'bytes({e})'
        return f'{e}.dump()'

    def default(self):
        """(expression, value) of some default, or None"""
        b = self.base
        if self.opt():
            if R.random() < 0.4:
                return ('', 'Val::None')
            i = Sc(b, self.wraps[1:], self.mode).default()
            if i is None or i[0] == '':
                return ('', 'Val::None')
            return (f'Some({i[0]})', f'some({i[1]})')
        if self.wraps and any(w.startswith('Spanned') or w == 'Option' for w in self.wraps):
            return None
        into = '.into()' if self.wraps else ''
        z = R.random() < 0.3
        if b in INTS:
            v = R.choice([1, 7, 100, 127])
            if into:
                return (f'Box::new({v}).into()', f'Val::Int({v})') if self.wraps == ['Box'] else ('', 'Val::Int(0)')
            return ('', 'Val::Int(0)') if z else (f'{v}', f'Val::Int({v})')
        if into:
            return None
        if b == 'f64':
            return ('', 'Val::F64(0)') if z else ('1.5', f'Val::F64(1.5f64.to_bits())')
        if b == 'bool':
            return ('', 'Val::Bool(false)') if z else ('true', 'Val::Bool(true)')
        if b in ('String', 'PathBuf', 'Arc<str>'):
            if z and b != 'Arc<str>':
                return ('', 's("")')
            t = R.choice(['abc', 'x y', ''])
            return (f'{lit(t)}.into()', f's({lit(t)})')
        if b == 'Color':
            return ('Color::DarkBlue', 'Val::Var("dark-blue".into(), vec![])')
        if b == 'Even':
            return ('Even("ab".into())', 's("ab")')
        if b == 'char':
            return ("'c'", 's("c")')
        if b in ('Vec<u8>',):
            return ('', 'Val::Bytes(vec![])') if z else ('b"dft".to_vec()', 'Val::Bytes(b"dft".to_vec())')
        return None


def scalar(wraps=0.25, sp=True, opt=0.3, mode=None, base=None):
    m = R.random()
    if mode is None:
        mode = '' if m < 0.72 else 'str' if m < 0.87 else 'bytes'
    if mode == 'str':
        b = base or R.choice(['u16', 'std::net::SocketAddr', 'Even', 'char', 'String'])
        return Sc(b, ['Option'] if R.random() < opt else [], 'str')
    if mode == 'bytes':
        b = base or R.choice(['Vec<u8>', 'Short', 'Box<[u8]>', 'Short'])
        return Sc(b, ['Option'] if R.random() < opt else [], 'bytes')
    b = base or R.choice(INTS + ['f64', 'f32', 'bool', 'bool', 'String', 'String', 'String', 'PathBuf', 'Arc<str>', 'Arc<Path>', 'Color', 'Level', 'Color', 'Only'])
    ws = ['Option'] if R.random() < opt else []
    while R.random() < wraps:
        ws.append(R.choice(['Box', 'Rc', 'Arc'] + (['Spanned:SP', 'Spanned:SP', 'Spanned:Span'] if sp else [])))
    return Sc(b, ws, '')


# parts of names that are several words
CAMEL = {'fieldName': 'field-name', 'HTTPServer': 'http-server', 'Upper': 'upper', 'someURL': 'some-url', 'ALL': 'all', 'éTé': 'é-té', 'Été': 'été'}


class F:
    """Field. mode: arg args prop props child flag multi rest flat span nodename typename skip"""
    def __init__(self, name, mode, **kw):
        self.name, self.mode = name, mode
        self.sc = kw.get('sc')
        self.key = kw.get('key')        # explicit or None
        self.dec = kw.get('dec')        # type name or F (unwrap)
        self.opt = kw.get('opt', False)  # of child/multi
        self.wrap = kw.get('wrap')      # Box, Rc, Arc of child
        self.default = kw.get('default')  # (expr, val)
        self.coll = kw.get('coll', 'Vec')
        self.fs = kw.get('fs')
        self.flat = kw.get('flat')      # set of child, prop
        self.span = kw.get('span')

    def kebab(self):
        n = self.name[2:] if self.name.startswith('r#') else self.name
        return '-'.join(CAMEL.get(x, x) for x in n.split('_') if x)

    def node_name(self):
        return self.key if self.key is not None else self.kebab()

    def needs_sp(self, plain=False):
        if self.mode == 'span':
            return True
        if self.sc and self.sc.sp(plain):
            return True
        if isinstance(self.dec, F):
            return self.dec.needs_sp(plain)
        if isinstance(self.dec, str):
            return TYPES[self.dec].needs_sp()
        if self.mode == 'flat':
            return TYPES[self.fs].needs_sp()
        return False

    def dflt(self):
        if self.default is None:
            return ''
        return ', default' + ('=' + self.default[0] if self.default[0] else '')

    def attr(self):
        """content of the attribute (without unwrap)"""
        m = self.mode
        if m == 'arg':
            return 'argument' + self.sc.attr() + self.dflt()
        if m == 'args':
            return 'arguments' + self.sc.attr()
        if m == 'prop':
            return 'property' + (f'(name={lit(self.key)})' if self.key is not None else '') + self.sc.attr() + self.dflt()
        if m == 'props':
            return 'properties' + self.sc.attr()
        u = f', unwrap({self.dec.attr()})' if isinstance(self.dec, F) else ''
        if m in ('child', 'flag'):
            return 'child' + u + self.dflt()
        if m == 'multi':
            return f'children(name={lit(self.key)})' + u + self.dflt()
        if m == 'rest':
            return 'children' + u
        if m == 'flat':
            return 'flatten(%s)' % ', '.join(sorted(self.flat))
        return {'span': 'span', 'nodename': 'node_name', 'typename': 'type_name', 'skip': ''}[m]

    def elem(self, plain):
        """type of a decoded child"""
        if isinstance(self.dec, F):
            t = self.dec.rust(plain)
        else:
            t = self.dec
        return t if plain or not self.wrap else f'{self.wrap}<{t}>'

    def rust(self, plain=False):
        m = self.mode
        if m in ('arg', 'prop'):
            return self.sc.rust(plain)
        if m == 'args':
            return f'{self.coll}<{self.sc.rust(plain)}>'
        if m == 'props':
            k = {'Str': 'String', 'Even': 'Even', 'Char': 'char'}[self.fs]
            return f'Vec<({k}, {self.sc.rust(plain)})>' if self.coll == 'Vec' else f'{self.coll}<{k}, {self.sc.rust(plain)}>'
        if m == 'child':
            t = self.elem(plain)
            return f'Option<{t}>' if self.opt else t
        if m == 'flag':
            return 'bool'
        if m in ('multi', 'rest'):
            t = f'{self.coll}<{self.elem(plain)}>'
            return f'Option<{t}>' if self.opt else t
        if m == 'flat':
            return self.fs if plain or not self.wrap else f'{self.wrap}<{self.fs}>'
        if m == 'span':
            return self.span
        fs = {'Str': 'String', 'U16': 'u16', 'Even': 'Even', 'Char': 'char', 'Addr': 'std::net::SocketAddr'}
        if m == 'nodename':
            return fs[self.fs]
        if m == 'typename':
            return f'Option<{fs[self.fs]}>' if self.opt else fs[self.fs]
        return self.fs     # skip

    def schema(self, idx=None, plain=False, name=None, unwrapped=False):
        n = name if name is not None else (self.name[2:] if self.name.startswith('r#') else self.name)
        n = str(idx) if idx is not None else n
        self.in_tuple = idx is not None
        return f'Field {{ name: {lit(n)}, indexed: {"true" if idx is not None else "false"}, mode: {self.modex(plain, unwrapped)} }}'

    def modex(self, plain, unwrapped=False):
        m = self.mode
        if unwrapped and m in ('arg', 'prop'):
            # `Option` is not special here
            d = f'Some({self.default[1]})' if self.default else 'None'
            key = f'key: {lit(self.node_name())}, ' if m == 'prop' else ''
            return f'Mode::{m.title()} {{ {key}sc: {self.sc.sc(plain, False)}, opt: false, def: {d} }}'
        d = f'Some({self.default[1]})' if self.default else 'None'
        b = lambda x: 'true' if x else 'false'
        if m == 'arg':
            return f'Mode::Arg {{ sc: {self.sc.sc(plain)}, opt: {b(self.sc.opt(plain))}, def: {d} }}'
        if m == 'args':
            return f'Mode::Args {{ sc: {self.sc.sc(plain, False)}, set: {b(self.coll == "BTreeSet")} }}'
        if m == 'prop':
            return f'Mode::Prop {{ key: {lit(self.node_name())}, sc: {self.sc.sc(plain)}, opt: {b(self.sc.opt(plain))}, def: {d} }}'
        if m == 'props':
            return f'Mode::Props {{ sc: {self.sc.sc(plain, False)}, key: Fs::{self.fs} }}'
        if m in ('child', 'multi', 'rest'):
            if isinstance(self.dec, F):
                x = f'Dec::Unwrap(Box::new({self.dec.schema(plain=plain, name='' if self.in_tuple else self.kebab_raw(), unwrapped=True)}))'
            else:
                x = f'Dec::Ty("{self.dec}")'
            if m == 'child':
                return f'Mode::Child {{ name: {lit(self.node_name())}, dec: {x}, opt: {b(self.opt)}, def: {d} }}'
            if m == 'multi':
                return f'Mode::Multi {{ name: {lit(self.key)}, dec: {x}, opt: {b(self.opt)}, def: {d} }}'
            return f'Mode::Rest {{ dec: {x} }}'
        if m == 'flag':
            return f'Mode::Flag {{ name: {lit(self.node_name())} }}'
        if m == 'flat':
            return f'Mode::Flat {{ ty: "{self.fs}", child: {b("child" in self.flat)}, prop: {b("property" in self.flat)} }}'
        if m == 'span':
            return 'Mode::Span(SpanTy::%s)' % ('Native' if self.span == 'SP' else 'Byte')
        if m == 'nodename':
            return f'Mode::NodeName(Fs::{self.fs})'
        if m == 'typename':
            return f'Mode::TypeName(Fs::{self.fs}, {b(self.opt)})'
        return f'Mode::Skip({self.default[1]})'

    def kebab_raw(self):
        return self.name[2:] if self.name.startswith('r#') else self.name

    def dump(self, e, plain=False):
        """e: reference"""
        m = self.mode
        if m in ('arg', 'prop'):
            return self.sc.dump(e, plain)
        if m == 'args':
            return f'Val::List({e}.iter().map(|x| {self.sc.dump("x", plain)}).collect())'
        if m == 'props' and self.coll == 'Vec':
            return f'pairs({e})'
        return f'{e}.dump()'

    def tags(self):
        t = set()
        m = self.mode
        if m in ('arg', 'args', 'prop', 'props'):
            t.add('C11')
        if m in ('child', 'flag', 'multi', 'rest'):
            t.add('C12')
        if m == 'flat':
            t.add('C13')
        if m in ('span', 'nodename', 'typename'):
            t.add('C16')
        if self.sc:
            if self.sc.mode:
                t.add('C15')
            if self.sc.base in ('Color', 'Level', 'Only'):
                t.add('C14')
            if any(w != 'Option' for w in self.sc.wraps):
                t.add('C22')
            if self.sc.wraps:
                t.add('C22o')
        if self.wrap:
            t.add('C22')
        if isinstance(self.dec, F):
            t |= {x for x in self.dec.tags() if x not in ('C11',)}
        return t


TYPES = {}
ORDER = []


class T:
    """kind: struct tuple unit newtype enum"""
    def __init__(self, name, kind, fields=(), variants=(), **kw):
        self.name, self.kind, self.fields, self.variants = name, kind, list(fields), list(variants)
        self.new = kw.get('new')        # (type, opt, wrap)
        self.derive_default = kw.get('default', False)
        self.part = kw.get('part', False)
        self.twin = kw.get('twin', False)
        self.root = kw.get('root', True)
        self._sp = None
        TYPES[name] = self
        ORDER.append(name)
        if self.twin:
            ORDER.append(name + 'Plain')

    def needs_sp(self):
        if self._sp is None:
            self._sp = False
            self._sp = any(f.needs_sp() for f in self.fields) or any(
                v[1] == 'nested' and TYPES[v[2]].needs_sp() or v[1] == 'tuple' and any(f.needs_sp() for f in v[2]) for v in self.variants)
            if self.new and TYPES[self.new[0]].needs_sp():
                self._sp = True
        return self._sp

    def tags(self):
        t = set()
        for f in self.fields:
            t |= f.tags()
        if self.kind == 'enum':
            t.add('C14')
        for v in self.variants:
            if v[1] == 'tuple':
                for f in v[2]:
                    t |= f.tags()
            if v[1] == 'nested' and v[4]:
                t.add('C22')
        if self.new:
            t |= {'C12'}
            if self.new[2]:
                t.add('C22')
        return t

    def is_doc(self):
        return self.kind in ('struct', 'tuple', 'unit') and not any(
            f.mode in ('arg', 'args', 'prop', 'props', 'span', 'nodename', 'typename') or f.mode == 'flat' and 'property' in f.flat
            for f in self.fields)

    def default_val(self):
        out = []
        for i, f in enumerate(self.fields):
            n = str(i) if self.kind == 'tuple' else f.kebab_raw()
            if f.mode in ('prop', 'child'):
                v = 'Val::None'
            elif f.mode == 'flag':
                v = 'Val::Bool(false)'
            elif f.mode == 'flat':
                v = TYPES[f.fs].default_val()
            else:
                v = f.default[1]
            out.append(f'({lit(n)}.into(), {v})')
        return f'Val::Rec({lit(self.name)}.into(), vec![{", ".join(out)}])'

    def emit(self, plain=False):
        name = self.name + ('Plain' if plain else '')
        o = []
        dflt = ', Default' if self.derive_default else ''
        o.append(f'#[derive(knuffel::Decode{dflt})]')
        if self.needs_sp():
            o.append('#[knuffel(span_type=SP)]')

        def fld(f, vis):
            a = f.attr()
            a = f'#[knuffel({a})] ' if a else ''
            return a + vis
        if self.kind == 'unit':
            o.append(f'pub struct {name};')
        elif self.kind == 'newtype':
            t, opt, wrap = self.new
            t = f'{wrap}<{t}>' if wrap and not plain else t
            o.append(f'pub struct {name}({"Option<%s>" % t if opt else t});')
        elif self.kind == 'struct':
            o.append(f'pub struct {name} {{')
            for f in self.fields:
                o.append(f'    {fld(f, "")}{f.name}: {f.rust(plain)},')
            o.append('}')
        elif self.kind == 'tuple':
            o.append(f'pub struct {name}(')
            for f in self.fields:
                o.append(f'    {fld(f, "")}{f.rust(plain)},')
            o.append(');')
        else:
            o.append(f'pub enum {name} {{')
            for v in self.variants:
                if v[1] == 'unit':
                    o.append(f'    {v[0]},')
                elif v[1] == 'skip':
                    o.append(f'    #[knuffel(skip)]\n    {v[0]},')
                elif v[1] == 'nested':
                    t = f'{v[4]}<{v[2]}>' if v[4] else v[2]
                    o.append(f'    {v[0]}({"Option<%s>" % t if v[3] else t}),')
                else:
                    o.append('    %s(%s),' % (v[0], ', '.join(f'{fld(f, "")}{f.rust(plain)}' for f in v[2])))
            o.append('}')
        # dump
        o.append(f'impl Dump for {name} {{')
        o.append('    fn dump(&self) -> Val {')
        if self.kind in ('struct', 'tuple', 'unit'):
            xs = []
            for i, f in enumerate(self.fields):
                n = str(i) if self.kind == 'tuple' else f.kebab_raw()
                acc = f'(&self.{i})' if self.kind == 'tuple' else f'(&self.{f.name})'
                xs.append(f'({lit(n)}.into(), {f.dump(acc, plain)})')
            o.append(f'        Val::Rec({lit(name)}.into(), vec![{", ".join(xs)}])')
        elif self.kind == 'newtype':
            o.append(f'        Val::Rec({lit(name)}.into(), vec![("0".into(), self.0.dump())])')
        else:
            o.append('        match self {')
            for v in self.variants:
                if v[1] in ('unit', 'skip'):
                    o.append(f'            {name}::{v[0]} => Val::Var({lit(v[0])}.into(), vec![]),')
                elif v[1] == 'nested':
                    o.append(f'            {name}::{v[0]}(x) => Val::Var({lit(v[0])}.into(), vec![x.dump()]),')
                else:
                    xs = ['x%d' % i for i in range(len(v[2]))]
                    ds = [f.dump(x, plain) for x, f in zip(xs, v[2])]
                    o.append(f'            {name}::{v[0]}({", ".join(xs)}) => Val::Var({lit(v[0])}.into(), vec![{", ".join(ds)}]),')
            o.append('        }')
        o.append('    }')
        o.append('}')
        return '\n'.join(o)

    def schema(self, plain=False):
        if self.kind in ('struct', 'tuple', 'unit'):
            fs = [f.schema(i if self.kind == 'tuple' else None, plain) for i, f in enumerate(self.fields)]
            return 'Def::Struct(vec![%s])' % ',\n        '.join(fs)
        if self.kind == 'newtype':
            return f'Def::New(Dec::Ty("{self.new[0]}"), {"true" if self.new[1] else "false"})'
        vs = []
        for v in self.variants:
            if v[1] == 'skip':
                continue
            k = {'unit': lambda: 'VKind::Unit',
                 'nested': lambda: f'VKind::Nested(Dec::Ty("{v[2]}"), {"true" if v[3] else "false"})',
                 'tuple': lambda: 'VKind::Tuple(vec![%s])' % ', '.join(f.schema(i, plain) for i, f in enumerate(v[2]))}[v[1]]()
            vs.append(f'({lit(v[-1])}, {lit(v[0])}, {k})')
        return 'Def::Enum(vec![%s])' % ',\n        '.join(vs)


# ---------------------------------------------------------------- random ones
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'size', 'mode', 'path', 'host', 'port', 'user', 'item', 'kind', 'x', 'y', 'a', 'b', 'max', 'min',
         'flag', 'data', 'list', 'key', 'id', 'opt', 'v2', 'log', 'end', 'tag', 'row', 'col']
ODD = ['node', 'ctx', 'children', 'child', 'val', 'value', 'name', 'name_str', 'iter_args', 'r#type', 'r#fn', 'r#match', '_lead', 'trail_', 'two__under', 'e', 's', 'v', 'typ', 'tn',
       'error', 'result', 'none', 'unwrap_fn', 'span', 'type_name', 'node_name', 'arg', 'args', 'lst']
WEIRD = ['weird name', '', 'über', 'a"b', 'true', 'Null', 'x.y', '-', '3', 'UPPER', 'snake_case', '日本', 'back\\slash', 'camelCase', 'tab\there']


class Names:
    def __init__(self):
        self.rust, self.props, self.kids = set(), set(), set()

    def ident(self, pool=None):
        while True:
            k = R.random()
            n = R.choice(ODD) if k < 0.2 else R.choice(WORDS) if k < 0.6 else R.choice(WORDS) + '_' + R.choice(WORDS)
            f = F(n, 'flag')
            if n in self.rust or pool is not None and f.kebab() in pool:
                continue
            self.rust.add(n)
            if pool is not None:
                pool.add(f.kebab())
            return n

    def weird(self, pool):
        while True:
            n = R.choice(WEIRD) if R.random() < 0.5 else R.choice(WORDS)
            if n not in pool:
                pool.add(n)
                return n


def unwrap_field(depth=0):
    """what is inside of a child"""
    k = R.random()
    if k < 0.55:
        sc = scalar(opt=0)
        d = sc.default() if R.random() < 0.15 else None
        return F('_', 'arg', sc=sc, default=d)
    if k < 0.7:
        return F('_', 'args', sc=scalar(opt=0.0, mode=R.choice(['', '', 'str'])))
    if k < 0.8:
        return F('_', 'prop', sc=scalar(opt=0), key=R.choice(WORDS + WEIRD))
    if k < 0.87:
        return F('_', 'props', sc=scalar(opt=0, mode='', base=R.choice(['String', 'u8', 'bool'])), fs='Str', coll='BTreeMap')
    if k < 0.94:
        return F('_', 'rest', dec=R.choice(LEAVES), coll='Vec')
    return F('_', 'multi', key=R.choice(WORDS + WEIRD), dec=R.choice(LEAVES), coll='Vec')


LEAVES = []


def gen_fields(n, tuple_=False, allow=None, names=None, special=0.25, nosp=False, flats=True):
    """fields of a struct; catch-alls are last of their kind"""
    nm = names or Names()
    out = []
    last = []
    had = set()
    for _ in range(n):
        kinds = ['arg'] * 3 + ['prop'] * 3 + ['child'] * 3 + ['flag'] * 1 + ['multi'] * 2 + ['args', 'props', 'rest', 'skip'] + (['flat'] * 2 if flats else [])
        if R.random() < special:
            kinds = ['nodename', 'typename', 'span']
        if allow:
            kinds = [k for k in kinds if k in allow]
        if not kinds:
            continue
        m = R.choice(kinds)
        sp = not nosp
        if m == 'arg':
            sc = scalar(sp=sp)
            if 'args' in had:
                continue
            d = sc.default() if R.random() < 0.25 else None
            out.append(F(nm.ident(), m, sc=sc, default=d))
        elif m == 'args':
            if m in had:
                continue
            coll = R.choice(['Vec', 'Vec', 'VecDeque', 'LinkedList', 'BTreeSet'])
            sc = scalar(base='i16', mode='', wraps=0, opt=0) if coll == 'BTreeSet' else scalar(sp=sp, opt=0.2)
            if sc.mode:
                sc.wraps = []
            last.append(F(nm.ident(), m, sc=sc, coll=coll))
        elif m == 'prop':
            if 'props' in had:
                continue
            sc = scalar(sp=sp)
            d = sc.default() if R.random() < 0.25 else None
            key = nm.weird(nm.props) if tuple_ or R.random() < 0.25 else None
            out.append(F(nm.ident(nm.props if key is None else None), m, sc=sc, default=d, key=key))
        elif m == 'props':
            if m in had:
                continue
            sc = scalar(sp=sp, opt=0.2)
            if sc.mode:
                sc.wraps = []
            coll = R.choice(['BTreeMap', 'HashMap', 'Vec'])
            if coll == 'Vec' and sc.base in ('Vec<u8>', 'Box<[u8]>') or sc.base in ('Vec<u8>', 'Box<[u8]>'):
                sc.base = 'Short'
            last.append(F(nm.ident(), m, sc=sc, fs=R.choice(['Str', 'Str', 'Even', 'Char']), coll=coll))
        elif m == 'flag':
            if tuple_ or 'rest' in had:
                continue
            out.append(F(nm.ident(nm.kids), m))
        elif m in ('child', 'multi', 'rest'):
            if m == 'child' and tuple_ or m != 'rest' and 'rest' in had or m == 'rest' and m in had:
                continue
            f = F('', m)
            if R.random() < 0.45:
                f.dec = unwrap_field()
                while nosp and f.dec.needs_sp() or f.dec.mode == 'arg' and f.dec.sc.base in ('Vec<u8>', 'Box<[u8]>') \
                        or f.dec.mode == 'args' and f.dec.sc.base in ('Vec<u8>', 'Box<[u8]>') or f.dec.mode == 'prop' and f.dec.sc.base in ('Vec<u8>', 'Box<[u8]>'):
                    f.dec = unwrap_field()
            else:
                f.dec = R.choice(LEAVES)
                while nosp and TYPES[f.dec].needs_sp():
                    f.dec = R.choice(LEAVES)
                if R.random() < 0.3:
                    f.wrap = R.choice(['Box', 'Rc', 'Arc'])
            if m == 'child':
                f.name = nm.ident(nm.kids)
                f.opt = R.random() < 0.5
                if isinstance(f.dec, F) and f.dec.mode == 'arg' and R.random() < 0.3 and not f.opt:
                    f.default = f.dec.sc.default()
                elif isinstance(f.dec, str) and TYPES[f.dec].derive_default and not f.opt and not f.wrap and R.random() < 0.5:
                    f.default = ('', TYPES[f.dec].default_val())
            else:
                f.name = nm.ident()
                if m == 'multi':
                    f.key = nm.weird(nm.kids)
                    f.opt = R.random() < 0.2
                f.coll = R.choice(['Vec', 'Vec', 'Vec', 'VecDeque', 'LinkedList'])
                if m == 'multi' and R.random() < 0.25:
                    f.default = ('', 'Val::None' if f.opt else 'Val::List(vec![])')
                    e = None
                    if isinstance(f.dec, F) and f.dec.mode == 'arg':
                        e = f.dec.sc.default()
                        e = e and (e[0] or 'Default::default()', e[1])
                    elif isinstance(f.dec, str) and TYPES[f.dec].derive_default and not f.wrap:
                        e = (f'{f.dec}::default()', TYPES[f.dec].default_val())
                    if e and R.random() < 0.8:
                        n = R.choice([1, 1, 2])
                        x = f'[{", ".join([e[0]] * n)}].into_iter().collect()'
                        v = f'Val::List(vec![{", ".join([e[1]] * n)}])'
                        f.default = (f'Some({x})', f'some({v})') if f.opt else (x, v)
            (last if m == 'rest' else out).append(f)
        elif m == 'skip':
            t, v = R.choice([('u32', 'Val::Int(0)'), ('String', 's("")'), ('Option<u8>', 'Val::None'), ('Vec<u16>', 'Val::List(vec![])')])
            out.append(F(nm.ident(), m, fs=t, default=('', v)))
        elif m == 'flat':
            cand = [p for p in PARTS if p not in had and not (PART_NAMES[p].props & nm.props) and not (PART_NAMES[p].kids & nm.kids)
                    and not (nosp and TYPES[p].needs_sp())]
            if not cand:
                continue
            p = R.choice(cand)
            fl = R.choice([{'child'}, {'property'}, {'child', 'property'}, {'child', 'property'}])
            if 'rest' in had:
                fl = fl - {'child'}
            if 'props' in had:
                fl = fl - {'property'}
            if not fl:
                continue
            nm.props |= PART_NAMES[p].props
            nm.kids |= PART_NAMES[p].kids
            had.add(p)
            out.append(F(nm.ident(), m, fs=p, flat=fl, wrap=R.choice([None, None, None, 'Box', 'Arc', 'Rc'])))
        elif m == 'span':
            out.append(F(nm.ident(), m, span=R.choice(['SP', 'SP', 'Span'])))
        elif m == 'nodename':
            out.append(F(nm.ident(), m, fs=R.choice(['Str', 'Str', 'Even'])))
        elif m == 'typename':
            if m in had and R.random() < 0.7:
                continue
            out.append(F(nm.ident(), m, fs=R.choice(['Str', 'Even', 'Char', 'U16', 'Addr']), opt=R.random() < 0.6))
        had.add(m)
    R.shuffle(out)
    R.shuffle(last)
    # a catch-all only has to follow fields of its own kind
    for f in last:
        kinds = {'args': ('arg',), 'props': ('prop', 'flat'), 'rest': ('child', 'flag', 'multi', 'flat')}[f.mode]
        pos = max([i + 1 for i, g in enumerate(out) if g.mode in kinds] or [0])
        out.insert(R.randint(pos, len(out)), f)
    return out


PARTS = []
PART_NAMES = {}


def part_fields(n, names, tuple_=False):
    out = []
    for _ in range(n):
        k = R.random()
        if k < 0.45:
            sc = scalar(opt=0)
            if sc.base in ('Vec<u8>', 'Box<[u8]>'):
                sc.base = 'Vec<u8>'
            sc.wraps = ['Option'] + sc.wraps
            key = names.weird(names.props) if tuple_ or R.random() < 0.2 else None
            out.append(F(names.ident(names.props if key is None else None), 'prop', sc=sc, key=key))
        elif tuple_:
            continue
        elif k < 0.6:
            out.append(F(names.ident(names.kids), 'flag'))
        else:
            f = F(names.ident(names.kids), 'child', opt=True)
            if R.random() < 0.5:
                f.dec = unwrap_field()
                while f.dec.sc and f.dec.sc.base in ('Vec<u8>', 'Box<[u8]>'):
                    f.dec = unwrap_field()
            else:
                f.dec = R.choice(LEAVES)
                f.wrap = R.choice([None, None, 'Box', 'Rc', 'Arc'])
            out.append(f)
    return out


# ---------------------------------------------------------------- hand-made
def sc(base, *wraps, mode=''):
    return Sc(base, wraps, mode)


def hand():
    A = lambda n, x, **k: F(n, 'arg', sc=x, **k)
    P = lambda n, x, **k: F(n, 'prop', sc=x, **k)
    T('Unit', 'unit', default=True)
    T('Arg1', 'struct', [A('name', sc('String'))])
    T('Num', 'tuple', [A('0', sc('i32'))])
    T('Args', 'struct', [F('list', 'args', sc=sc('String'))])
    T('Props', 'struct', [F('map', 'props', sc=sc('String'), fs='Str', coll='HashMap')])
    T('OptAll', 'struct', [P('alpha', sc('u8', 'Option')), P('beta', sc('String', 'Option')), F('flag', 'flag')], default=True)
    T('Name', 'struct', [F('own', 'nodename', fs='Str'), F('typ', 'typename', fs='Str', opt=True), F('args', 'args', sc=sc('i64'))])
    T('Where', 'struct', [F('at', 'span', span='SP'), F('bytes', 'span', span='Span'), F('own', 'nodename', fs='Str'), A('v', sc('String', 'Option'))])
    T('Kind', 'enum', variants=[('Alpha', 'unit', 'alpha'), ('BetaGamma', 'unit', 'beta-gamma'), ('HTTPServer', 'nested', 'Arg1', False, None, 'http-server'),
                                ('Maybe', 'nested', 'Num', True, None, 'maybe'), ('r#type', 'unit', 'type'),
                                ('Tup', 'tuple', [A('0', sc('u8')), P('1', sc('String', 'Option'), key='label'), F('2', 'rest', dec='Unit')], 'tup'),
                                ('Hidden', 'skip', 'hidden')])
    T('Three', 'enum', variants=[('One', 'unit', 'one'), ('Two2', 'nested', 'Args', False, 'Box', 'two2'), ('SkipMe', 'skip', 'skip-me'), ('ThreeFour', 'tuple', [F('0', 'args', sc=sc('bool')), F('1', 'skip', fs='u8', default=('', 'Val::Int(0)'))], 'three-four')])
    vs = lambda n: [('Var%d' % i if i % 3 else 'Long%sName%d' % ('X' * (i // 3), i), 'unit', 'var%d' % i if i % 3 else 'long%s-name%d' % ('-' + 'x' * (i // 3) if i else '', i)) for i in range(n)]
    T('Many4', 'enum', variants=vs(4))
    T('Many8', 'enum', variants=vs(8))
    T('Many13', 'enum', variants=vs(6) + [('Gone', 'skip', 'gone')] + vs(14)[6:])
    T('Many40', 'enum', variants=vs(40))
    # words that are parts of many names
    words = ['LeafNode', 'NodeLeaf', 'Node', 'NodeType', 'TypeName', 'SomeKind', 'AValue', 'ValueA', 'Words', 'WordsList', 'ListWords', 'IsSet', 'HasIt', 'GetIt', 'SetIt', 'ItemOpt', 'OptItem', 'NewItem', 'Items', 'ItemEnum',
             'EnumItem', 'StructX', 'MyField', 'VariantOne', 'Child', 'Children', 'AChild', 'TheOne', 'ErrorCase', 'ConfigItem', 'Name', 'NodeName', 'ItemStr', 'StrItem', 'Argument', 'Property', 'Default', 'Skip', 'Span']
    keb = lambda w: re.sub('(?<!^)([A-Z])', r'-\1', w).lower()
    T('Words', 'enum', variants=[(w, 'unit', keb(w)) for w in words])
    snake = lambda w: keb(w).replace('-', '_')
    T('WordFlags', 'struct', [F(snake(w), 'flag') for w in words])
    T('WordProps', 'struct', [P(snake(w), sc('u8', 'Option')) for w in words])
    LEAVES.extend(['Unit', 'Arg1', 'Num', 'Args', 'Props', 'OptAll', 'Name', 'Where', 'Kind', 'Three'])
    # positional arguments
    T('Pos', 'struct', [A('first', sc('String')), A('second', sc('u16')), A('third', sc('bool', 'Option')), A('fourth', sc('i8', 'Option')), F('rest', 'args', sc=sc('f64'))])
    T('PosDef', 'struct', [A('a', sc('u8'), default=('7', 'Val::Int(7)')), A('b', sc('String'), default=('', 's("")')),
                           A('c', sc('u8', 'Option'), default=('Some(9)', 'some(Val::Int(9))')), A('d', sc('Color'), default=('Color::X', 'Val::Var("x".into(), vec![])'))])
    T('AllInts', 'struct', [A('a%s' % t, sc(t)) for t in INTS] + [P('p_%s' % t, sc(t, 'Option')) for t in INTS])
    T('OptMid', 'tuple', [A('0', sc('u8', 'Option')), A('1', sc('u8', 'Option')), A('2', sc('String', 'Option'))])
    T('ArgsSet', 'struct', [A('head', sc('i16')), F('tail', 'args', sc=sc('i16'), coll='BTreeSet')])
    # properties
    T('PropReq', 'struct', [P('host_name', sc('String')), P('port', sc('u16')), P('r#type', sc('Color')), P('odd', sc('bool'), key='Odd Name')])
    T('PropDef', 'struct', [P('a', sc('u8'), default=('42', 'Val::Int(42)')), P('b', sc('u8', 'Option'), default=('Some(43)', 'some(Val::Int(43))')),
                            P('c', sc('String', 'Option'), default=('', 'Val::None')), P('d', sc('f64'), default=('', 'Val::F64(0)')),
                            P('e', sc('Vec<u8>', 'Option', mode='bytes'), default=('Some(b"q".to_vec())', 'some(Val::Bytes(b"q".to_vec()))')),
                            P('f', sc('Even', 'Option', mode='str'), default=('Some(Even("zz".into()))', 'some(s("zz"))'))])
    T('PropRest', 'struct', [P('name', sc('String', 'Option')), P('size', sc('u32')), F('other', 'props', sc=sc('String'), fs='Str', coll='BTreeMap')])
    T('PropKeys', 'struct', [P('size', sc('u32', 'Option')), F('other', 'props', sc=sc('i32', 'Option'), fs='Even', coll='HashMap')])
    # conversions
    T('Strs', 'struct', [A('a', sc('std::net::SocketAddr', mode='str')), A('b', sc('u16', 'Option', mode='str')), P('c', sc('char', mode='str')),
                         P('d', sc('Even', 'Option', mode='str')), F('more', 'args', sc=sc('Even', mode='str'))])
    T('StrMap', 'struct', [F('map', 'props', sc=sc('u16', mode='str'), fs='Str', coll='BTreeMap')])
    T('BytesA', 'struct', [A('a', sc('Vec<u8>', mode='bytes')), A('b', sc('Short', 'Option', mode='bytes')), P('c', sc('Box<[u8]>', mode='bytes')),
                           P('d', sc('Vec<u8>', 'Option', mode='bytes')), F('more', 'args', sc=sc('Short', mode='bytes'))])
    T('BytesMap', 'struct', [F('map', 'props', sc=sc('Short', mode='bytes'), fs='Str', coll='HashMap')])
    T('BytesOne', 'tuple', [A('0', sc('Vec<u8>', mode='bytes'))])
    T('BytesOpt', 'tuple', [A('0', sc('Short', 'Option', mode='bytes')), P('1', sc('Short', mode='bytes'), key='p')])
    T('StrUn', 'struct', [F('addr', 'child', dec=F('_', 'arg', sc=sc('std::net::SocketAddr', mode='str'))), F('short', 'child', opt=True, dec=F('_', 'arg', sc=sc('Short', mode='bytes'))),
                          F('evens', 'multi', key='even', dec=F('_', 'arg', sc=sc('Even', mode='str'))), F('chars', 'multi', key='chars', dec=F('_', 'args', sc=sc('char', mode='str')))])
    # children
    T('Kids', 'struct', [F('one', 'child', dec='Arg1'), F('two_words', 'child', dec='Arg1', opt=True), F('flag', 'flag'), F('plugins', 'multi', key='plugin', dec='Arg1'),
                         F('rest', 'rest', dec='Name')])
    T('KidsStrict', 'struct', [F('one', 'child', dec='Arg1'), F('opt', 'child', dec='Num', opt=True), F('dflt', 'child', dec='OptAll', default=('', 'DEF:OptAll')), F('yes', 'flag'), F('no_way', 'flag'),
                               F('many', 'multi', key='many', dec='Num'), F('some', 'multi', key='some', dec='Arg1', opt=True)])
    T('Unwraps', 'struct', [F('a', 'child', dec=F('_', 'arg', sc=sc('String'))), F('b', 'child', dec=F('_', 'arg', sc=sc('u8')), opt=True),
                            F('c', 'child', dec=F('_', 'args', sc=sc('i32'))), F('d', 'child', dec=F('_', 'props', sc=sc('bool'), fs='Str', coll='BTreeMap'), opt=True),
                            F('e', 'child', dec=F('_', 'rest', dec='Name'), opt=True), F('f', 'child', dec=F('_', 'multi', key='x', dec='Arg1'), opt=True),
                            F('g', 'child', dec=F('_', 'prop', key='size', sc=sc('u8')), opt=True), F('h', 'child', dec=F('_', 'arg', sc=sc('bool')), default=('true', 'Val::Bool(true)')),
                            F('i', 'child', dec=F('_', 'arg', sc=sc('u8', 'Option')), default=('Some(3)', 'some(Val::Int(3))')),
                            F('j', 'multi', key='j', dec=F('_', 'arg', sc=sc('i8'))),
                            F('k', 'child', dec=F('_', 'child', dec=F('_', 'arg', sc=sc('u16'))), opt=True),
                            F('l', 'child', dec=F('_', 'arg', sc=sc('u8'), default=('11', 'Val::Int(11)')), opt=True)])
    # nested unwrap uses name of the outer field for the inner child
    TYPES['Unwraps'].fields[10].dec.name = 'k'
    T('RestUn', 'struct', [F('x', 'child', opt=True, dec='Unit'), F('rest', 'rest', dec=F('_', 'arg', sc=sc('u32')))])
    T('Tree', 'struct', [F('name', 'nodename', fs='Str'), A('label', sc('String', 'Option')), F('nodes', 'rest', dec='Tree')])
    T('TreeE', 'enum', variants=[('Leaf', 'tuple', [A('0', sc('i64'))], 'leaf'), ('Branch', 'nested', 'TreeB', False, None, 'branch'), ('Link', 'nested', 'TreeE2', True, 'Box', 'link')])
    T('TreeB', 'struct', [F('name', 'prop', sc=sc('String', 'Option')), F('nodes', 'rest', dec='TreeE')], root=False)
    T('TreeE2', 'struct', [F('to', 'child', dec='TreeE', wrap='Box'), F('at', 'flag')], root=False)
    T('TupKids', 'tuple', [F('0', 'nodename', fs='Str'), F('1', 'multi', key='x', dec='Num'), F('2', 'rest', dec='Kind')])
    # flatten
    T('PartP', 'struct', [P('font_size', sc('u8', 'Option')), P('font_name', sc('String', 'Option')), P('font_key', sc('Even', 'Option', mode='str'))], default=True, part=True)
    T('PartC', 'struct', [F('left', 'child', dec='Num', opt=True), F('r#loop', 'flag'), F('label', 'child', opt=True, dec=F('_', 'arg', sc=sc('String')))], default=True, part=True)
    T('PartM', 'struct', [P('w', sc('u8', 'Option')), F('bold', 'flag'), F('sub', 'child', dec='Kids', opt=True, wrap='Box')], default=True, part=True)
    T('PartN', 'struct', [F('inner', 'flat', fs='PartM', flat={'child', 'property'}), P('deep', sc('i8', 'Option')), F('pit', 'flag')], default=True, part=True)
    T('PartT', 'tuple', [P('0', sc('Color', 'Option'), key='color'), P('1', sc('Short', 'Option', mode='bytes'), key='raw')], default=True, part=True)
    T('PartNC', 'struct', [F('inner', 'flat', fs='PartC', flat={'child'}, wrap='Box'), F('x_flag', 'flag')], default=True, part=True)
    T('FlatP', 'struct', [A('a', sc('u8', 'Option')), F('font', 'flat', fs='PartP', flat={'property'}), P('own', sc('u8'))])
    T('FlatC', 'struct', [F('c', 'flat', fs='PartC', flat={'child'}), F('other', 'child', dec='Arg1', opt=True)])
    T('FlatBoth', 'struct', [F('m', 'flat', fs='PartM', flat={'child', 'property'}), F('p', 'flat', fs='PartP', flat={'property'}, wrap='Box'), F('c', 'flat', fs='PartC', flat={'child'}, wrap='Arc')])
    T('FlatDeep', 'struct', [F('n', 'flat', fs='PartN', flat={'child', 'property'}), F('rest', 'rest', dec='Name'), F('others', 'props', sc=sc('String'), fs='Str', coll='BTreeMap')])
    T('FlatHalf', 'struct', [F('n', 'flat', fs='PartN', flat={'property'}), F('bold', 'flag')])
    T('FlatHalfC', 'struct', [F('n', 'flat', fs='PartN', flat={'child'}), P('w', sc('String', 'Option'))])
    T('FlatDoc', 'struct', [F('n', 'flat', fs='PartNC', flat={'child'}, wrap='Rc'), F('m', 'flat', fs='PartM', flat={'child'}), F('k', 'multi', key='k', dec='Kind')])
    T('FlatTup', 'tuple', [F('0', 'flat', fs='PartT', flat={'property'}), F('1', 'flat', fs='PartC', flat={'child'}), F('2', 'span', span='Span')])
    T('FlatRest', 'struct', [F('c', 'flat', fs='PartC', flat={'child'}), F('rest', 'rest', dec='Name')])
    T('FlatEnum', 'enum', variants=[('Node', 'tuple', [F('0', 'flat', fs='PartM', flat={'child', 'property'}), F('1', 'flat', fs='PartT', flat={'property'})], 'node'), ('Other', 'nested', 'FlatP', True, None, 'other')])
    # names of the part that the struct has too: the field declared first takes them
    T('OwnFirst', 'struct', [P('w', sc('String', 'Option')), F('bold', 'child', dec='Num', opt=True), F('m', 'flat', fs='PartM', flat={'child', 'property'}), P('z', sc('u8', 'Option'))])
    T('PartFirst', 'struct', [F('m', 'flat', fs='PartM', flat={'child', 'property'}), P('w', sc('String', 'Option')), F('bold', 'child', dec='Num', opt=True)])
    T('PartTwice', 'struct', [F('c', 'flat', fs='PartC', flat={'child'}), F('left', 'multi', key='left', dec='Kind'), F('a', 'flat', fs='PartM', flat={'child', 'property'}, wrap='Box'), F('b', 'flat', fs='PartN', flat={'child', 'property'})])
    PARTS.extend(['PartP', 'PartC', 'PartM', 'PartN', 'PartT', 'PartNC'])
    for p in PARTS:
        n = Names()
        collect(p, n)
        PART_NAMES[p] = n
    # names of fields in all spellings
    T('FieldProps', 'struct', [P(n, sc('u8', 'Option')) for n in ['a__b', '_c', 'd_', '__e__f__', 'x1', 'y_1', 'z1_2z', 'fieldName', 'HTTPServer', 'Upper', 'someURL_x', 'ALL', 'ünder_x', 'Été', 'r#async', 'r#loop']])
    T('FieldFlags', 'struct', [F(n, 'flag') for n in ['a__b', '_c', 'd_', '__e__f__', 'x1', 'y_1', 'z1_2z', 'fieldName', 'HTTPServer', 'Upper', 'someURL_x', 'ALL', 'ünder_x', 'Été', 'r#async', 'r#loop']])
    T('FieldKids', 'struct', [F('a__b', 'child', dec='Arg1', opt=True), F('_c', 'child', dec='Arg1', opt=True), F('r#loop', 'child', dec='Arg1', opt=True), F('fieldName', 'child', dec='Arg1', opt=True),
                              F('w__x', 'child', dec=F('_', 'arg', sc=sc('u8')), opt=True), F('_y', 'child', dec=F('_', 'arg', sc=sc('u8')), opt=True), F('HTTPServer', 'child', dec=F('_', 'arg', sc=sc('u8')), opt=True)])
    # own names
    T('Names', 'struct', [F('n', 'nodename', fs='Even'), F('t', 'typename', fs='Even', opt=False), F('s', 'span', span='SP'), F('kids', 'rest', dec='Names')])
    T('NamesOpt', 'struct', [F('n', 'nodename', fs='Char'), F('n2', 'nodename', fs='Str'), F('t', 'typename', fs='U16', opt=True), F('t2', 'typename', fs='Str', opt=True)])
    T('SpanDeep', 'enum', variants=[('A', 'nested', 'SpanDeepIn', False, None, 'a'), ('B', 'tuple', [F('0', 'span', span='SP'), F('1', 'nodename', fs='Str'), F('2', 'typename', fs='Str', opt=True), A('3', sc('String', 'Spanned:SP'))], 'b')])
    T('SpanDeepIn', 'struct', [F('s', 'span', span='Span'), F('sub', 'rest', dec='SpanDeep'), P('p', sc('u8', 'Option', 'Spanned:Span'))])
    # newtypes
    T('New', 'newtype', new=('Arg1', False, None))
    T('NewOpt', 'newtype', new=('Pos', True, None))
    T('NewBox', 'newtype', new=('Kids', False, 'Arc'))
    T('NewOptBox', 'newtype', new=('Kind', True, 'Rc'))
    T('NewNew', 'newtype', new=('NewOpt', False, 'Box'))
    T('NewSp', 'newtype', new=('Where', False, None))
    T('NewSpOpt', 'newtype', new=('Names', True, 'Box'))
    T('NewSpKids', 'struct', [F('a', 'child', dec='NewSp'), F('b', 'child', dec='NewSpOpt', opt=True), F('c', 'rest', dec='NewSpOpt')])
    T('ListDef', 'struct', [F('a', 'multi', key='m', dec=F('_', 'arg', sc=sc('u8')), default=('vec![1, 2]', 'Val::List(vec![Val::Int(1), Val::Int(2)])')),
                            F('b', 'multi', key='n', opt=True, dec=F('_', 'arg', sc=sc('String')), default=('Some(vec!["q".into()])', 'some(Val::List(vec![s("q")]))')),
                            F('c', 'multi', key='unit', dec='Unit', default=('vec![Unit]', 'LDEF:Unit')), F('d', 'multi', key='k', opt=True, dec='Arg1', default=('', 'Val::None')),
                            F('yes', 'flag'), F('e', 'multi', key='set', dec=F('_', 'arg', sc=sc('i8')), coll='VecDeque', default=('[-3i8].into_iter().collect()', 'Val::List(vec![Val::Int(-3)])'))])
    T('KidsDef', 'struct', [F('a', 'child', dec='OptAll', opt=True, default=('', 'Val::None')), F('b', 'child', dec='OptAll', opt=True, default=('Some(OptAll::default())', 'SDEF:OptAll')),
                            F('c', 'child', dec='Unit', opt=True, wrap='Box', default=('Some(Box::new(Unit))', 'SDEF:Unit')), F('d', 'child', dec='Arg1', opt=True, default=('None', 'Val::None')),
                            F('converted_name', 'rest', dec='Name')])
    T('Hygiene', 'struct', [F('converted_name', 'props', sc=sc('String'), fs='Char', coll='BTreeMap'), F('name_str', 'rest', dec='Name'), F('val', 'args', sc=sc('u8')), F('type_name', 'typename', fs='Str', opt=True)])
    # wrappers
    T('WrapS', 'struct', [A('a', sc('u8', 'Box')), A('b', sc('String', 'Rc')), A('c', sc('Color', 'Arc')), A('d', sc('f64', 'Spanned:SP')), P('e', sc('i8', 'Option', 'Box')),
                          P('f', sc('bool', 'Option', 'Spanned:Span')), F('g', 'args', sc=sc('u16', 'Box', 'Rc', 'Spanned:SP'))], twin=True)
    T('WrapC', 'struct', [F('a', 'child', dec='Arg1', wrap='Box'), F('b', 'child', dec='Kids', wrap='Rc', opt=True), F('c', 'multi', key='c', dec='Kind', wrap='Arc'), F('d', 'rest', dec='Name', wrap='Box')], twin=True)
    T('WrapP', 'struct', [P('a', sc('u32', 'Spanned:SP')), P('b', sc('String', 'Spanned:SP', 'Box')), F('rest', 'props', sc=sc('i32', 'Arc'), fs='Str', coll='BTreeMap')], twin=True)
    T('WrapU', 'struct', [F('a', 'child', dec=F('_', 'arg', sc=sc('u8', 'Box'))), F('b', 'child', opt=True, dec=F('_', 'arg', sc=sc('Level', 'Spanned:SP'))), F('c', 'multi', key='c', dec=F('_', 'args', sc=sc('String', 'Rc')))], twin=True)
    T('WrapOpt', 'struct', [A('a', sc('u8', 'Box', 'Option')), A('b', sc('String', 'Spanned:SP', 'Option')), P('c', sc('Color', 'Rc', 'Option')), F('d', 'args', sc=sc('i64', 'Option'))])
    for t in list(TYPES.values()):
        for f in t.fields:
            if f.default and f.default[1].startswith('DEF:'):
                f.default = (f.default[0], TYPES[f.default[1][4:]].default_val())
            if f.default and f.default[1].startswith('LDEF:'):
                f.default = (f.default[0], 'Val::List(vec![%s])' % TYPES[f.default[1][5:]].default_val())
            if f.default and f.default[1].startswith('SDEF:'):
                f.default = (f.default[0], 'some(%s)' % TYPES[f.default[1][5:]].default_val())


def collect(p, n):
    for f in TYPES[p].fields:
        if f.mode == 'prop':
            n.props.add(f.node_name())
        elif f.mode in ('child', 'flag'):
            n.kids.add(f.node_name())
        elif f.mode == 'flat':
            collect(f.fs, n)


def rand():
    # more leaves
    for i in range(14):
        T('L%d' % i, 'struct', gen_fields(R.randint(1, 5), allow={'arg', 'args', 'prop', 'props', 'nodename', 'typename', 'span'}))
    LEAVES.extend('L%d' % i for i in range(14))
    for i in range(6):
        n = Names()
        fs = part_fields(R.randint(1, 5), n, i % 3 == 2)
        if i >= 3:
            for p in R.sample(PARTS, len(PARTS)):
                if not (PART_NAMES[p].props & n.props) and not (PART_NAMES[p].kids & n.kids):
                    fl = R.choice([{'child'}, {'property'}, {'child', 'property'}])
                    fs.insert(R.randint(0, len(fs)), F(n.ident(), 'flat', fs=p, flat=fl, wrap=R.choice([None, 'Box', 'Arc', 'Rc'])))
                    break
        if not fs or len(fs) == 0:
            continue
        name = 'RP%d' % i
        T(name, 'tuple' if i % 3 == 2 else 'struct', fs, default=True, part=True)
        m = Names()
        collect(name, m)
        PARTS.append(name)
        PART_NAMES[name] = m
    for i in range(34):
        T('S%d' % i, 'struct', gen_fields(R.randint(2, 8)))
        if i == 10:
            LEAVES.extend('S%d' % j for j in range(8))
    for i in range(12):
        fs = gen_fields(R.randint(2, 6), tuple_=True, allow={'arg', 'args', 'prop', 'props', 'multi', 'rest', 'flat', 'nodename', 'typename', 'span', 'skip'})
        if len(fs) == 1 and fs[0].mode == 'skip':
            fs.append(F('x', 'nodename', fs='Str'))
        T('T%d' % i, 'tuple', fs)
    VN = [('Alpha', 'alpha'), ('Beta2', 'beta2'), ('GammaRay', 'gamma-ray'), ('XMLDoc', 'xml-doc'), ('V1Beta', 'v1-beta'), ('D', 'd'), ('r#move', 'move'), ('TwoWordsMore', 'two-words-more'), ('under_score', 'under-score'), ('ABC', 'abc')]
    for i in range(14):
        vs = []
        for rust, name in R.sample(VN, R.randint(1, 6)):
            k = R.random()
            if k < 0.25:
                vs.append((rust, 'unit', name))
            elif k < 0.35 and vs:
                vs.append((rust, 'skip', name))
            elif k < 0.65:
                vs.append((rust, 'nested', R.choice(LEAVES), R.random() < 0.4, R.choice([None, None, 'Box', 'Rc', 'Arc']), name))
            else:
                fs = gen_fields(R.randint(1, 4), tuple_=True, allow={'arg', 'args', 'prop', 'props', 'multi', 'rest', 'flat', 'nodename', 'typename', 'span', 'skip'})
                if not fs or all(f.mode == 'skip' for f in fs):
                    fs = [F('0', 'arg', sc=scalar())]
                vs.append((rust, 'tuple', fs, name))
        if all(v[1] == 'skip' for v in vs):
            vs.append(('Zed', 'unit', 'zed'))
        T('E%d' % i, 'enum', variants=vs)
        if i == 6:
            LEAVES.extend('E%d' % j for j in range(5))
    # documents
    for i in range(10):
        T('D%d' % i, 'struct', gen_fields(R.randint(2, 8), allow={'child', 'flag', 'multi', 'rest', 'skip'}, special=0))
    for i in range(8):
        T('W%d' % i, 'struct', [f for f in gen_fields(R.randint(3, 7), special=0, allow={'arg', 'args', 'prop', 'props', 'child', 'multi', 'rest'})], twin=True)
        for f in TYPES['W%d' % i].fields:
            for s_ in (f.sc, f.dec.sc if isinstance(f.dec, F) else None):
                if s_ is not None and not s_.mode:
                    o = ['Option'] if s_.opt() else []
                    ws = [w for w in s_.wraps if w != 'Option']
                    if not ws and f.coll != 'BTreeSet' and not f.default and not (isinstance(f.dec, F) and f.dec.default):
                        ws = [R.choice(['Box', 'Rc', 'Arc', 'Spanned:SP', 'Spanned:Span']) for _ in range(R.randint(1, 2))]
                    s_.wraps = o + ws


def main():
    hand()
    rand()
    body = ['// Generated by tools/gen_types.py']
    ents = []
    defs = []
    for name in ORDER:
        plain = name not in TYPES
        t = TYPES[name[:-5] if plain else name]
        body.append(t.emit(plain))
        tags = sorted(t.tags() | ({'twin'} if t.twin else set()) | ({'part'} if t.part else set()) | (set() if t.root else {'inner'}))
        defs.append(f'    m.insert("{name}", {t.schema(plain)});')
        doc = f'Some(|t, f| knuffel::parse_with_context::<{name}, SP, _>(f, t, |_| {{}}).map(|v| v.dump()))' if t.is_doc() else 'None'
        ptr = ['Box', 'Arc', 'Rc'][len(ents) % 3]
        docb = f'Some(|t, f| knuffel::parse_with_context::<{ptr}<{name}>, SP, _>(f, t, |_| {{}}).map(|v| v.dump()))' if t.is_doc() else 'None'
        ents.append(f'''        Entry {{ name: "{name}", tags: &[{", ".join('"%s"' % x for x in tags)}],
            list: |t, f| knuffel::parse_with_context::<Vec<{name}>, SP, _>(f, t, |_| {{}}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<{name}, SP>(n).map(|v| v.dump()),
            doc: {doc},
            doc_box: {docb} }},''')
    body.append('pub fn entries() -> Vec<Entry<SP>> {\n    vec![\n' + '\n'.join(ents) + '\n    ]\n}')
    open(os.path.join(OUT, 'types_body.rs'), 'w').write('\n'.join(body) + '\n')
    schema = ['// Generated by tools/gen_types.py', 'use std::collections::HashMap;', 'use crate::custom::*;', 'use crate::model::*;', '',
              'pub fn defs() -> HashMap<&\'static str, Def> {', '    let mut m = HashMap::new();'] + defs + ['    m', '}']
    open(os.path.join(OUT, 'schema.rs'), 'w').write('\n'.join(schema) + '\n')
    print(len(ORDER), 'types')


main()
