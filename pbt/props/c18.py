"""C18: geometry values compare, hash, parse and print consistently."""
from copy import deepcopy
from fractions import Fraction as F
from itertools import product

from pbt import model
from pbt.core import Enum, Facet, check
from pbt.gen import st

PROPERTY = 'C18'
RULE = ('Equality: two values given as specs (kind, components, units, None-ness) are built by the constructors and by '
        'other routes (parsing, inheritance, arithmetic, copies) and compared; ==, != and hash must follow the specs. '
        'Parsing: strings over digits, dots, signs, units and blanks against a scanner of the grammar. Printing: '
        'two decimals, read back. Relativizing and fitting: the receiver is dumped before and after. Non-trivial: '
        'pairs that share a component or kind, strings with a digit.')
ASSUMPTIONS = [
    'numbers which begin or end with a dot (".5px", "5.px") are judged neither way',
    'magnitudes below 1e15, no NaN; raw WebVTT settings of a layout are no geometric component',
    'relativizing a value that is relative already may return the value itself',
]
UNITS = ['px', 'em', '%', 'c', 'pt']


def G():
    from pycaption import geometry
    return geometry


# ---------------------------------------------------------------- values from specs
# {'k': 'size'|'point'|'stretch'|'padding'|'align'|'layout', 'v': spec}
def build(x):
    g = G()
    k, v = x['k'], x['v']
    if k == 'size':
        return model.mk_size(v)
    if k == 'point':
        return g.Point(*map(model.mk_size, v))
    if k == 'stretch':
        return g.Stretch(*map(model.mk_size, v))
    if k == 'padding':
        return g.Padding(*map(model.mk_size, v))
    if k == 'align':
        return model.mk_align(v)
    return model.mk_layout(v)


def size_text(s):
    return s[0] + s[1]


def routes(x):
    """other ways to the same value"""
    g = G()
    k, v = x['k'], x['v']
    first = build(x)
    yield deepcopy(first)
    if k == 'size':
        yield g.Size.from_string(size_text(v))
        yield g.Size(v[0], first.unit)
        yield abs(model.mk_size(v))
        yield model.mk_size(v) + model.mk_size(['0', v[1]])
        yield model.mk_size(v) - model.mk_size(['0', v[1]])
    elif k in ('point', 'stretch'):
        cls = g.Point if k == 'point' else g.Stretch
        yield cls.from_xml_attribute(' '.join(map(size_text, v)))
        if k == 'point':
            zero = [['0', s[1]] for s in v]
            yield first.add_stretch(build({'k': 'stretch', 'v': zero}))
        else:
            yield build({'k': 'point', 'v': v}) - build({'k': 'point', 'v': [['0', s[1]] for s in v]})
    elif k == 'padding':
        b, a, s, e = [size_text(s or ['0', '%']) for s in v]
        yield g.Padding.from_xml_attribute(' '.join([b, e, a, s]))
        yield g.Padding(before=first.before, after=first.after, start=first.start, end=first.end)
    elif k == 'align':
        ver = {'top': 'before', 'center': 'center', 'bottom': 'after', None: None}
        if v != [None, None]:
            yield g.Alignment.from_horizontal_and_vertical_align(v[0], ver[v[1]])
    else:
        yield g.Layout(inherit_from=first)
        yield g.Layout(origin=first.origin, inherit_from=first)
        yield model.mk_layout(dict(v, w='line:0'))


def norm(x):
    """the components as a comparable value"""
    def sz(s):
        return (float(s[0]), s[1])
    k, v = x['k'], x['v']
    if k == 'size':
        return (k, sz(v))
    if k in ('point', 'stretch'):
        return (k, tuple(map(sz, v)))
    if k == 'padding':
        return (k, tuple(sz(s or ['0', '%']) for s in v))
    if k == 'align':
        return (k, tuple(v))
    parts = [('o', 'point'), ('e', 'stretch'), ('p', 'padding'), ('a', 'align')]
    return (k, tuple(norm({'k': kk, 'v': v[c]}) if v.get(c) else None for c, kk in parts))


def run_pair(case, ctx):
    a, b = case['a'], case['b']
    x, y = build(a), build(b)
    same = norm(a) == norm(b)
    if a['k'] != b['k']:
        ctx.trivial()
    ctx.label(a['k'] if a['k'] == b['k'] else 'kinds differ', 'equal' if same else 'different')
    compare(x, y, same)
    check(x == x and not x != x and hash(x) == hash(x), 'a value differs from itself', value=repr(x))
    for other in (None, 0, '', 'x', (), object()):
        check(not x == other and x != other and not other == x, 'a value equals something else', value=repr(x),
              other=repr(other))
    for z in routes(a):
        compare(x, z, True)
        compare(z, y, same)
    table = {x: 1}
    table[y] = 2
    check(len(table) == (1 if same else 2) and table[build(b)] == 2 and (same or table[build(a)] == 1),
          'a dict mixes values up', a=repr(x), b=repr(y))
    check(([x].index(y) == 0) if y in [x] else not same, 'a list mixes values up', a=repr(x), b=repr(y))


def compare(x, y, same):
    d = {'a': repr(x), 'b': repr(y)}
    check(bool(x == y) is same, 'equal values compare unequal' if same else 'different values compare equal', **d)
    check(bool(y == x) is same, 'equality is not symmetric', **d)
    check(bool(x != y) is not same and bool(y != x) is not same, '!= does not negate ==', **d)
    if same:
        check(hash(x) == hash(y), 'equal values have different hashes', **d)


# ---------------------------------------------------------------- parsing
def scan(s):
    """(number text, unit), '0' for the bare zero, None for a string outside, 'dot' for the ambiguous"""
    if s == '0':
        return '0', 'px'
    i = 0
    while i < len(s) and s[i] in '0123456789.':
        i += 1
    num, unit = s[:i], s[i:]
    if unit not in UNITS or not any(c != '.' for c in num) or num.count('.') > 1:
        return None
    if num[0] == '.' or num[-1] == '.':
        return 'dot'
    return num, unit


def run_string(case, ctx):
    if not any(c.isdigit() for c in case['s']):
        ctx.trivial()
    ctx.label(parse(case['s']))


def parse(s):
    from pycaption.exceptions import CaptionReadSyntaxError
    want = scan(s)
    try:
        got = G().Size.from_string(s)
    except CaptionReadSyntaxError:
        check(not want or want == 'dot', 'a size was refused', string=s)
        return 'rejected'
    if want == 'dot':
        return 'ambiguous'
    check(want, 'not a size, but parsed', string=s, got=repr(got))
    check(float(got.value) == float(want[0]) and (s == '0' or got.unit.value == want[1]), 'parsed to another size',
          string=s, got=repr(got))
    return 'accepted'


def run_batch(case, ctx):
    n = 0
    for rest in product(ALPHABET, repeat=case['n']):
        parse(case['prefix'] + ''.join(rest))
        n += 1
    ctx.label(f'{n} strings')


# ---------------------------------------------------------------- printing
def run_print(case, ctx):
    g = G()
    v, unit = float(case['v']), case['u']
    x = model.mk_size([case['v'], unit])
    for text in (str(x), x.to_xml_attribute(), f'{x}'):
        check(text.endswith(unit), 'printed with another unit', got=text)
        num = text[:-len(unit)]
        check(num and all(c in '0123456789.' for c in num) and len(num.partition('.')[2]) <= 2,
              'not printed with at most two decimals', got=text, value=v)
        check(abs(F(num) - F(v)) <= F(1, 200) + F(v) / 10 ** 15, 'printed value is not the rounded one', got=text,
              value=v)
        back = g.Size.from_string(text)
        check(back == g.Size(float(num), x.unit) and str(back) == text, 'reading the printed value changes it',
              got=repr(back), printed=text)
        if F(case['v']) == F(num):
            check(back == x and hash(back) == hash(x), 'a value of two decimals is not reproduced', got=repr(back),
                  value=repr(x))
    p = g.Point(x, x)
    check(p.to_xml_attribute() == f'{x} {x}' and g.Point.from_xml_attribute(p.to_xml_attribute()) == g.Point(back, back),
          'a point is not reproduced', got=p.to_xml_attribute())
    p = g.Stretch(x, back)
    check(g.Stretch.from_xml_attribute(p.to_xml_attribute()) == g.Stretch(back, back),
          'a stretch is not reproduced', got=p.to_xml_attribute())


def run_two(case, ctx):
    """points, stretches and paddings of different sizes, printed and read"""
    g = G()
    sizes = [model.mk_size(s) for s in case['sizes']]
    back = [g.Size.from_string(str(s)) for s in sizes]
    texts = [str(s) for s in sizes]
    check(g.Point(*sizes[:2]).to_xml_attribute() == ' '.join(texts[:2]), 'a point prints in another order')
    check(g.Stretch(*sizes[:2]).to_xml_attribute() == ' '.join(texts[:2]), 'a stretch prints in another order')
    for cls in (g.Point, g.Stretch):
        got = cls.from_xml_attribute(' '.join(texts[:2]))
        check(got == cls(*back[:2]), 'a pair reads in another order', got=repr(got), text=texts)
    p = g.Padding(*sizes)
    b, a, s, e = back
    check(g.Padding.from_xml_attribute(p.to_xml_attribute()) == g.Padding(b, a, s, e),
          'a padding is not reproduced', got=p.to_xml_attribute(), padding=repr(p))
    check(p.to_xml_attribute() == ' '.join([str(b), str(e), str(a), str(s)]), 'a padding prints in another order',
          got=p.to_xml_attribute())
    # the shorthand
    w = back
    for n, (before, end, after, start) in ((1, (0, 0, 0, 0)), (2, (0, 1, 0, 1)), (3, (0, 1, 2, 1)),
                                           (4, (0, 1, 2, 3))):
        got = g.Padding.from_xml_attribute(' '.join(texts[:n]))
        have = [got.before, got.end, got.after, got.start]
        want = [w[before], w[end], w[after], w[start]]
        check(have == want, 'padding shorthand', text=texts[:n], got=repr(got))
        check(got == g.Padding(before=want[0], end=want[1], after=want[2], start=want[3]), 'padding shorthand',
              text=texts[:n], got=repr(got))


# ---------------------------------------------------------------- operations
def dump(x):
    from pycaption.geometry import Layout
    if isinstance(x, Layout):
        return model.d_layout(x), x.webvtt_positioning
    if hasattr(x, 'value') and hasattr(x, 'unit'):
        return model.d_size(x)
    return {k: model.d_size(v) for k, v in sorted(vars(x).items())}


def run_op(case, ctx):
    x = build(case['x'])
    spec = case['x']
    parts = [x] + [getattr(x, c) for c in ('origin', 'extent', 'padding') if spec['k'] == 'layout' and getattr(x, c)]
    before, hashes = [dump(p) for p in parts], [hash(p) for p in parts]
    twin = build(spec)
    w, h = case['dims']
    results = []
    ops = []
    if spec['k'] == 'size':
        ops = [lambda: x.as_percentage_of(video_width=w), lambda: x.as_percentage_of(video_height=h), lambda: abs(x),
               lambda: x + x, lambda: x - x]
    else:
        ops = [lambda: x.as_percentage_of(w, h)]
        if spec['k'] == 'layout':
            ops += [lambda: x.fit_to_screen(), lambda: x.as_percentage_of(w, h).fit_to_screen()]

    ops += [lambda: x.is_relative(), lambda: str(x), lambda: repr(x), lambda: x == twin]
    for op in ops:
        try:
            r = op()
        except Exception as e:  # noqa: B902  (refusals are judged by C13)
            ctx.label(type(e).__name__)
            r = None
        check([dump(p) for p in parts] == before, 'the receiver was modified', before=before, now=dump(x))
        check([hash(p) for p in parts] == hashes and x == twin, 'the receiver changed its hash or equality', x=repr(x))
        if r is not None and not isinstance(r, (bool, str)):
            results.append((r, dump(r), hash(r)))
    # the results are values of their own
    for r, d, hsh in results:
        check(dump(r) == d and hash(r) == hsh, 'a result changed afterwards', was=d, now=dump(r))
        check(r == deepcopy(r) and hash(r) == hash(deepcopy(r)), 'a result does not equal its copy', r=repr(r))
    a, b = [r for r, _, _ in results], []
    for op in ops:
        try:
            r = op()
        except Exception:  # noqa: B902
            continue
        if not isinstance(r, (bool, str)):
            b.append(r)
    check(a == b and [hash(r) for r in a] == [hash(r) for r in b], 'the same operation gave another value',
          first=repr(a), second=repr(b))


# ---------------------------------------------------------------- generators
ALPHABET = '05.+-epx%ct \nm'
VALUES = ['0', '1', '1.5', '10', '33.33', '33.333', '0.004', '100', '2', '0.1']
H = [None, 'left', 'center', 'right', 'start', 'end']
V = [None, 'top', 'center', 'bottom']


def pairs(tier):
    sizes = [[v, u] for v in ['0', '1', '1.5', '33.33'] for u in UNITS]
    for a, b in product(sizes, repeat=2):
        yield {'a': {'k': 'size', 'v': a}, 'b': {'k': 'size', 'v': b}}
    aligns = [list(x) for x in product(H, V)]
    for a, b in product(aligns, repeat=2):
        yield {'a': {'k': 'align', 'v': a}, 'b': {'k': 'align', 'v': b}}
    few = [['0', 'px'], ['0', '%'], ['10', '%'], ['10', 'px'], ['1', 'c']]
    two = [list(x) for x in product(few, repeat=2)]
    for k in ('point', 'stretch'):
        for a, b in product(two, repeat=2):
            yield {'a': {'k': k, 'v': a}, 'b': {'k': k, 'v': b}}
    for a in two:
        yield {'a': {'k': 'point', 'v': a}, 'b': {'k': 'stretch', 'v': a}}
    pads = [list(x) for x in product([None, ['0', '%'], ['2', '%']], repeat=4)]
    for i, a in enumerate(pads):
        for b in pads if tier != 'quick' else pads[i % 3::3]:
            yield {'a': {'k': 'padding', 'v': a}, 'b': {'k': 'padding', 'v': b}}
    A, B = ['10', '%'], ['20', '%']
    slots = {'o': [None, [A, A], [A, B], [B, A]], 'e': [None, [A, A], [A, B]],
             'p': [None, [A, A, A, A], [A, A, B, A]], 'a': [None, ['left', 'top'], ['left', None], [None, 'top']]}
    los = [dict(zip('oepa', x)) for x in product(*slots.values())]
    for i, a in enumerate(los):
        for b in los if tier != 'quick' else los[i % 4::4]:
            yield {'a': {'k': 'layout', 'v': a}, 'b': {'k': 'layout', 'v': b}}


def short_strings(tier):
    for n in range(0, 4):
        for x in product(ALPHABET, repeat=n):
            yield {'s': ''.join(x)}
    odd = ['٣', '५', '²', '½', '\xa0', '\u2028', '\r', '\t', '\x00', '−', 'é', '５', '％', 'ｐ', 'PX', 'Px', 'in', 'cm', 'ppx',
           'px ', 'e3', 'E3', ',', '/', '_', "'"]
    for o in odd:
        for base in ('5px', '1.5em', '10%', '0', '2c', '12pt', '', '0.0', '00'):
            for i in range(len(base) + 1):
                yield {'s': base[:i] + o + base[i:]}
                if i < len(base):
                    yield {'s': base[:i] + o + base[i + 1:]}


def batches(tier):
    n = 2 if tier == 'quick' else 3
    for x in product(ALPHABET, repeat=3):
        if tier != 'quick' or any(c in '05' for c in x):
            yield {'prefix': ''.join(x), 'n': n}


@st.composite
def string(draw):
    piece = st.sampled_from(['0', '5', '12', '.', '.', 'px', 'em', '%', 'c', 'pt', ' ', '-', '+', 'e', '1e3', '\n', 'p',
                             'x', '007', '3.25', '٣', '0x1', '_', '1_0', 'inf', 'nan', '100', '0.5px', '²', '％', ',5'])
    return {'s': ''.join(draw(st.lists(piece, max_size=5)))}


@st.composite
def number(draw):
    k = draw(st.integers(0, 6))
    if k == 0:
        return draw(st.sampled_from(VALUES + ['0.005', '0.015', '0.025', '1.005', '2.675', '99.995', '0.994', '0.995',
                                              '9.999', '0.0049999', '1e-7', '123456789.125', '0.1', '0.29', '1.15']))
    if k == 1:
        return str(draw(st.integers(0, 10 ** 9)))
    if k == 2:
        return repr(draw(st.integers(0, 10 ** 6)) / 100)
    if k == 3:
        return repr(draw(st.integers(0, 10 ** 7)) / 1000)
    if k == 4:
        return repr(draw(st.integers(0, 2000)) * 100 / draw(st.sampled_from([32, 15, 640, 360, 1920, 333, 7])))
    return repr(draw(st.floats(0, 10 ** draw(st.integers(0, 14)), allow_nan=False)))


@st.composite
def printing(draw):
    return {'v': draw(number()), 'u': draw(st.sampled_from(UNITS))}


@st.composite
def size(draw):
    v = draw(number())
    return [v, draw(st.sampled_from(UNITS))]


@st.composite
def plain_size(draw):
    return [draw(st.one_of(st.sampled_from(VALUES), st.integers(0, 120).map(str))), draw(st.sampled_from(UNITS))]


@st.composite
def value(draw, sz):
    k = draw(st.sampled_from(['size', 'point', 'stretch', 'padding', 'layout', 'layout', 'layout']))
    if k == 'size':
        return {'k': k, 'v': draw(sz)}
    if k in ('point', 'stretch'):
        return {'k': k, 'v': [draw(sz), draw(sz)]}
    if k == 'padding':
        return {'k': k, 'v': [draw(st.one_of(st.none(), sz)) for _ in range(4)]}
    d = {}
    for c, n in (('o', 2), ('e', 2), ('p', 4)):
        if draw(st.booleans()):
            d[c] = [draw(sz) for _ in range(n)]
    if draw(st.booleans()):
        d['a'] = [draw(st.sampled_from(H)), draw(st.sampled_from(V))]
    return {'k': k, 'v': d}


@st.composite
def pair(draw):
    sz = plain_size()
    a = draw(value(sz))
    b = {'k': a['k'], 'v': deepcopy(a['v'])}
    # change one component, or none
    k = draw(st.integers(0, 3))
    if k == 0:
        return {'a': a, 'b': b}
    if a['k'] == 'size':
        i = draw(st.integers(0, 1))
        b['v'][i] = draw(sz)[i]
    elif a['k'] == 'layout':
        c = draw(st.sampled_from('oepa'))
        new = draw(value(sz).filter(lambda x: x['k'] == 'layout'))['v'].get(c)
        if new is not None and b['v'].get(c) and draw(st.booleans()):
            i = draw(st.integers(0, len(new) - 1))
            b['v'][c][i] = new[i]
        else:
            b['v'][c] = new
    else:
        i = draw(st.integers(0, len(a['v']) - 1))
        b['v'][i] = draw(sz)
    return {'a': a, 'b': b}


@st.composite
def op(draw):
    sz = draw(st.sampled_from([plain_size(), plain_size().map(lambda s: [s[0], '%']),
                               plain_size().map(lambda s: [s[0], '%'])]))
    return {'x': draw(value(sz)), 'dims': list(draw(st.sampled_from([(640, 360), (100, 100), (None, None), (720, None),
                                                                     (None, 576), (7, 3)])))}


FACETS = [
    Enum('pairs', pairs, run_pair),
    Enum('strings', short_strings, run_string),
    Enum('batches', batches, run_batch),
    Facet('pair', pair(), run_pair, quick=3000, thorough=60000),
    Facet('string', string(), run_string, quick=4000, thorough=80000),
    Facet('print', printing(), run_print, quick=4000, thorough=80000),
    Facet('shorthand', st.fixed_dictionaries({'sizes': st.lists(size(), min_size=4, max_size=4)}), run_two,
          quick=1500, thorough=20000),
    Facet('operations', op(), run_op, quick=3000, thorough=60000),
]
