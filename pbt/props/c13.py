"""C13: absolute sizes are relativized exactly or refused; fit-to-screen stays safe."""
import re
from fractions import Fraction as F

from pbt import docs, model, parsers, writers
from pbt.core import Enum, Facet, check, fail
from pbt.gen import st
from pbt.props.c12 import cues

PROPERTY = 'C13'
RULE = ('A case is a caption set with layouts in px, em, pt, c and % at set, language, caption and node level x video '
        'size (both, width, height, none) x relativize x fit_to_screen x writer. The lengths of the DFXP regions, '
        'SAMI margins and WebVTT settings that apply to each visible character are compared with exact rational '
        'arithmetic rounded to two decimals; RelativizationError is demanded when a layout that is written needs '
        'a missing dimension and refused when no layout does. With fit_to_screen the right and bottom edges are '
        'checked. Non-trivial: a length that is not a percentage, or an origin with fit_to_screen.')
ASSUMPTIONS = [
    'cells need no video dimension, but a writer that refuses them without the dimension of their axis is accepted',
    'a missing dimension that only a layout shadowed by a more specific one needs is judged neither way',
    'fit_to_screen with relativize off is judged on percentages only (documented ValueError on others)',
    'a language\'s layout in DFXP is fitted where it applies to a caption (the div itself is not: pinned by '
    'tests/test_dfxp_conversion.py::TestDFXPtoDFXP::test_empty_cue)',
]
TT = '{http://www.w3.org/ns/ttml}'
TTS = '{http://www.w3.org/ns/ttml#styling}'
XML = '{http://www.w3.org/XML/1998/namespace}'
EPS = F(5001, 1000000)
EM = {'px': F(1), 'em': F(16), 'pt': F(4, 3)}


class Missing(Exception):
    pass


class Cell(Missing):
    pass


CELLS = 'cells'     # stands for a missing dimension which only cells asked for, and were given


def rel(size, axis, dims):
    """exact percentage of a size spec ['v', unit]; axis 0 horizontal, 1 vertical"""
    v, unit = F(str(size[0])), size[1]
    if unit == '%':
        return v
    if unit == 'c':
        if not dims[axis]:
            raise Cell
        return v * 100 / (32, 15)[axis]
    if not dims[axis] or dims[axis] is CELLS:
        raise Missing
    return v * EM[unit] * 100 / dims[axis]


def components(lo):
    """[(key, size, axis)]"""
    out = []
    for k in 'oe':
        if lo.get(k):
            out += [((k, i), lo[k][i], i) for i in (0, 1)]
    if lo.get('p'):
        # before, after, start, end
        out += [(('p', i), s if s is not None else ['0', '%'], (1, 1, 0, 0)[i]) for i, s in enumerate(lo['p'])]
    return out


def exact(lo, dims):
    return {k: rel(s, ax, dims) for k, s, ax in components(lo)}


def needs(lo, dims):
    """'missing', 'cell' or None"""
    r = None
    for _, s, ax in components(lo or {}):
        try:
            rel(s, ax, dims)
        except Cell:
            r = r or 'cell'
        except Missing:
            return 'missing'
    return r


def truthy(lo):
    return bool(lo) and any(lo.get(k) for k in 'oepaw')


def pct(text, what, out):
    m = re.fullmatch(r'(-?\d+(?:\.\d{1,2})?)%', text)
    check(m, f'{what}: not a percentage with at most two decimals', got=text, output=out)
    return F(m.group(1))


def near(got, want, what, **d):
    check(abs(got - want) <= EPS, f'{what}: wrong percentage', got=str(float(got)), want=str(float(want)), **d)


def judge(lo, got, fit, what, **d):
    """got: {component: printed percentage}; lo: exact components"""
    o = 'safe' if ('o', 0) in lo and lo['o', 0] <= 90 and lo['o', 1] <= 95 else 'o' if ('o', 0) in lo else None
    keys = set(lo)
    if fit and o == 'o' and ('e', 0) not in lo and ('e', 0) in got:
        keys |= {('e', 0), ('e', 1)}            # outside the safe area: not specified
    if fit and o == 'safe':
        keys |= {('e', 0), ('e', 1)}
    check(set(got) == keys, f'{what}: other components', got=sorted(got), want=sorted(keys), **d)
    for k in keys:
        if k[0] == 'e' and fit and o:
            if o == 'o':
                continue
            edge = (90, 95)[k[1]]
            start = lo['o', k[1]]
            check(got[k] >= 0, f'{what}: negative extent', got=float(got[k]), **d)
            if k not in lo:
                near(got[k], edge - start, f'{what}: a missing extent must reach the safe edge', **d)
            elif start + lo[k] <= edge:
                near(got[k], lo[k], f'{what}: an extent that fits must not change', **d)
            else:
                check(start + got[k] <= edge + EPS, f'{what}: the region leaves the safe area',
                      edge=float(start + got[k]), **d)
        else:
            near(got[k], lo[k], f'{what}: {"".join(map(str, k))}', **d)


def levels(cs):
    """all layouts of a set as specs"""
    yield model.d_layout(cs.layout_info)
    for lg in cs.get_languages():
        yield model.d_layout(cs.get_layout_info(lg))
        for c in cs.get_captions(lg):
            yield model.d_layout(c.layout_info)
            for n in c.nodes:
                yield model.d_layout(n.layout_info)


def effective(cs, lg):
    """per caption [(visible char, effective layout spec)]"""
    out = []
    for c in cs.get_captions(lg):
        base = next((x for x in (model.d_layout(c.layout_info), model.d_layout(cs.get_layout_info(lg)))
                     if truthy(x)), None)
        row = []
        for n in c.nodes:
            if n.type_ == n.TEXT:
                lo = model.d_layout(n.layout_info)
                row += [(ch, lo if truthy(lo) else base) for ch in n.content if not ch.isspace()]
        out.append(row)
    return out


# ---------------------------------------------------------------- reading the outputs
def region_components(el, out):
    got = {}
    for name, k in (('origin', 'o'), ('extent', 'e'), ('padding', 'p')):
        v = el.get(TTS + name)
        if v is None:
            continue
        parts = [pct(x, f'DFXP tts:{name}', out) for x in v.split(' ')]
        if k == 'p':
            b, e, a, s = {1: parts * 4, 2: parts * 2, 3: parts + parts[1:2], 4: parts}[len(parts)]
            parts = [b, a, s, e]
        else:
            check(len(parts) == 2, f'DFXP: odd tts:{name}', got=v, output=out)
        got.update({(k, i): x for i, x in enumerate(parts)})
    return got


def dfxp(cs, out, dims, opts, langs):
    root = parsers.xml(out)
    regions = {r.get(XML + 'id'): r for r in root.iter(TT + 'region')}
    comps = {k: region_components(r, out) for k, r in regions.items()}
    if opts.get('write_inline_positioning'):
        for el in root.find(TT + 'body').iter():
            region_components(el, out)
    divs = root.findall(f'{TT}body/{TT}div')
    for lg, div in zip(langs, divs):
        rows = [r for r in effective(cs, lg)]
        ps = div.findall(TT + 'p')
        check(len(ps) == len(rows), 'DFXP: captions lost or added', output=out)
        for p, row in zip(ps, rows):
            chars = []

            def walk(el, reg):
                reg = el.get('region') or reg
                chars.extend((ch, reg) for ch in el.text or '' if not ch.isspace())
                for k in el:
                    if isinstance(k.tag, str):
                        walk(k, reg)
                    chars.extend((ch, reg) for ch in k.tail or '' if not ch.isspace())
            walk(p, None)
            check([c for c, _ in chars] == [c for c, _ in row], 'DFXP: text changed', output=out)
            for (ch, reg), (_, lo) in zip(chars, row):
                judge(exact(lo or {}, dims), comps[reg], opts.get('fit_to_screen', True),
                      f'DFXP region of {ch!r}', layout=lo, output=out)
        lo = model.d_layout(cs.get_layout_info(lg))
        if truthy(lo):
            # the div is relativized, and fitted or not
            got, x = comps[div.get('region')], exact(lo, dims)
            fit = opts.get('fit_to_screen', True) and not same(x, got)
            judge(x, got, fit, 'DFXP region of a div', layout=lo, output=out)


def same(lo, got):
    return set(lo) == set(got) and all(abs(got[k] - lo[k]) <= EPS for k in lo)


def webvtt(cs, out, dims, opts, lg):
    rows = effective(cs, lg)
    got = cues(out)
    fit, relat = opts.get('fit_to_screen', True), opts.get('relativize', True)
    i = 0
    for row in rows:
        left = ''.join(c for c, _ in row)
        at = 0
        while left:
            check(i < len(got), 'WebVTT: too few cues', output=out)
            _, raw, lines = got[i]
            i += 1
            text = ''.join(c for c in ''.join(parsers.vtt_text(lines)[0]) if not c.isspace())
            check(text and left.startswith(text), 'WebVTT: text changed', got=text, want=left, output=out)
            lo = row[at][1]
            at += len(text)
            left = left[len(text):]
            have = {}
            for tok in raw.split():
                k, v = tok.split(':', 1)
                if k != 'align':
                    have[k] = pct(v, f'WebVTT {k}', out)
            if not truthy(lo):
                check(not have, 'WebVTT: settings without a layout', got=raw, output=out)
                continue
            if not relat and any(s[1] != '%' for _, s, _ in components(lo)):
                check(not have, 'WebVTT: settings of absolute lengths', got=raw, output=out)
                continue
            x = exact(lo, dims)
            if ('o', 0) not in x:
                continue
            p = [x.get(('p', k), F(0)) for k in range(4)]
            for name, want in (('position', x['o', 0] + p[2]), ('line', x['o', 1] + p[0])):
                check(name in have, f'WebVTT: no {name}', got=raw, layout=lo, output=out)
                near(have[name], want, f'WebVTT {name}', layout=lo, output=out)
            safe = x['o', 0] <= 90 and x['o', 1] <= 95
            d = {'layout': lo, 'settings': raw, 'output': out}
            if fit and safe:
                check('size' in have, 'WebVTT: no size', **d)
                w = x.get(('e', 0))
                if w is None:
                    near(have['size'], 90 - x['o', 0] - p[2] - p[3], 'WebVTT size to the safe edge', **d)
                elif x['o', 0] + w <= 90:
                    near(have['size'], w - p[2] - p[3], 'WebVTT size of an extent that fits', **d)
                else:
                    check(x['o', 0] + p[2] + have['size'] + p[3] <= 90 + EPS, 'WebVTT: the cue leaves the safe area', **d)
            elif not fit and ('e', 0) in x:
                check('size' in have, 'WebVTT: no size', **d)
                near(have['size'], x['e', 0] - p[2] - p[3], 'WebVTT size', **d)
            elif not fit:
                check('size' not in have, 'WebVTT: size without an extent', **d)
    check(i == len(got), 'WebVTT: too many cues', output=out)


def sami(cs, out, dims, names):
    """margins of the blocks of the languages (their layout) and of the styles (the set's)"""
    css = out[out.index('<!--'):out.index('-->')]
    blocks = {m.group(1): dict(re.findall(r'([\w-]+):\s*([^;]+);', m.group(2)))
              for m in re.finditer(r'\.?([\w-]+)\s*\{([^}]*)\}', css)}
    for props in blocks.values():
        for k, v in props.items():
            if k.startswith('margin-'):
                pct(v.strip(), 'SAMI ' + k, out)
    for name, lo in names:
        lo = lo if truthy(lo) else {}
        check(name in blocks, 'SAMI: no style block', name=name, output=out)
        got = {k: pct(v.strip(), 'SAMI ' + k, out) for k, v in blocks[name].items() if k.startswith('margin-')}
        if not lo.get('p'):
            check(not got, 'SAMI: margins without a padding', got=got, output=out)
            continue
        x = exact({'p': lo['p']}, dims)
        want = {'margin-top': x['p', 0], 'margin-bottom': x['p', 1], 'margin-left': x['p', 2],
                'margin-right': x['p', 3]}
        check(set(got) == set(want), 'SAMI: margins missing', got=sorted(got), output=out)
        for k in want:
            near(got[k], want[k], 'SAMI ' + k, layout=lo, output=out)


def run(case, ctx):
    from pycaption.exceptions import RelativizationError
    if 'doc' in case:
        try:
            cs = docs.read(case['doc']) if 'fmt' in case['doc'] else None
        except Exception as e:  # noqa: B902
            ctx.require(False, f'reader refused the document: {type(e).__name__}')
    else:
        cs = model.mk_set(case['set'])
    opts, w = case['opts'], case['writer']
    dims = (opts.get('video_width'), opts.get('video_height'))
    fit, relat = opts.get('fit_to_screen', True), opts.get('relativize', True)
    lang = case.get('lang')
    every = [lo for lo in levels(cs) if truthy(lo)]
    absolute = [lo for lo in every if any(s[1] != '%' for _, s, _ in components(lo))]
    if not absolute and not (fit and any(lo['o'] for lo in every)):
        ctx.trivial()
    ctx.require(not any(lo.get('w') for lo in every), 'WebVTT settings')
    langs = [lang] if lang else cs.get_languages()
    if w == 'webvtt':
        langs = langs[:1]
    if w == 'sami':
        applied = [model.d_layout(cs.get_layout_info(lg)) for lg in langs]
    else:
        applied = [lo for lg in langs for row in effective(cs, lg) for _, lo in row]
    applied = [lo for lo in applied if truthy(lo)]
    ctx.label(w)
    wr = writers.make(w, opts)
    must = any(needs(lo, dims) == 'missing' for lo in applied) and relat
    may = any(needs(lo, dims) for lo in every) and relat
    try:
        out = wr.write(cs, lang) if lang else wr.write(cs)
    except RelativizationError as e:
        ctx.label('refused')
        if not may:
            fail('the writer refused although every dimension it needs was supplied', error=repr(e))
        return
    except ValueError as e:
        ctx.require(not (absolute and fit and not relat), 'fit to screen of absolute units')
        raise e
    check(not must, 'the writer needs a dimension that was not supplied, but wrote', output=out)
    ctx.label('written' + (', absolute lengths' if absolute else ''))
    # cells were accepted without a dimension: nothing else may be
    free = tuple(d or CELLS for d in dims)
    if w == 'webvtt':
        webvtt(cs, out, free, opts, langs[0])
    elif not relat and absolute:
        ctx.label('absolute lengths left alone')
    elif w == 'sami':
        names = [(lg, model.d_layout(cs.get_layout_info(lg))) for lg in langs]
        ctx.require('set' in case, 'margins of read documents are not judged')
        names += [(k, model.d_layout(cs.layout_info)) for k, _ in cs.get_styles()]
        sami(cs, out, free, names)
    else:
        dfxp(cs, out, free, opts, langs)


# ---------------------------------------------------------------- generators
UNITS = ['px', 'em', 'pt', 'c', '%']
GRID = {'px': ['0', '1', '7', '64', '100', '333', '0.5', '576'], 'em': ['0', '1', '2.5', '0.33', '10', '20'],
        'pt': ['0', '1', '3', '12', '72', '0.75', '100'], 'c': ['0', '1', '2', '7', '0.5', '13', '20'],
        '%': ['0', '10', '33.33', '45', '90', '90.01', '95', '89.99', '12.345', '95.01', '50']}
DIMS = [(640, 360), (1920, 1080), (720, 576), (333, 777), (100, 100), (1, 1), (640, 480)]


@st.composite
def size(draw, units, big=True):
    u = draw(st.sampled_from(units))
    v = draw(st.one_of(st.sampled_from(GRID[u]), st.integers(0, 400).map(str) if u in ('px', 'pt') and big
                       else st.integers(0, 30).map(str), st.integers(0, 9999).map(lambda n: str(n / 100))
                       if u in ('%', 'px') and big else st.integers(0, 999).map(lambda n: str(n / 100))))
    return [v, u]


@st.composite
def layout(draw, units, safe):
    d = {}
    k = draw(st.integers(0, 15))
    if k & 1 or safe:
        d['o'] = [draw(size(units)), draw(size(units))]
    if k & 2:
        d['e'] = [draw(size(units)), draw(size(units))]
    if k & 4:
        d['p'] = [draw(st.one_of(st.none(), size(units, False), size(units, False))) for _ in range(4)]
    if k & 8 or not d:
        d['a'] = [draw(st.sampled_from(['left', 'center', 'start'])), draw(st.sampled_from(['top', 'bottom']))]
    return d


@st.composite
def api(draw):
    units = draw(st.sampled_from([UNITS, UNITS, ['%'], ['px'], ['px', '%'], ['em', 'pt'], ['c', '%'], ['c']]))
    opts = {}
    w, h = draw(st.sampled_from(DIMS))
    k = draw(st.integers(0, 11))
    if k not in (0, 1):
        opts['video_width'] = w
    if k not in (0, 2):
        opts['video_height'] = h
    if draw(st.booleans()):
        opts['fit_to_screen'] = False
    if draw(st.integers(0, 5)) == 0:
        opts['relativize'] = False
    writer = draw(st.sampled_from(['dfxp', 'dfxp', 'webvtt', 'webvtt', 'sami']))
    if writer == 'dfxp' and draw(st.integers(0, 5)) == 0:
        opts['write_inline_positioning'] = True
    pool = [draw(layout(units, opts.get('fit_to_screen', True) and draw(st.booleans())))
            for _ in range(draw(st.integers(1, 3)))]
    pick = st.one_of(st.none(), st.sampled_from(pool), st.sampled_from(pool))
    rare = st.one_of(st.none(), st.none(), st.none(), pick)
    langs, t = [], 0
    for lg in draw(st.sampled_from([['en'], ['en'], ['fr', 'en-US']])):
        caps = []
        for _ in range(draw(st.integers(1, 2))):
            t += 2000000
            ns = []
            for i in range(draw(st.integers(1, 2))):
                lo = draw(rare)
                ns += [['b', lo]] * (i and draw(st.integers(0, 1)))
                ns.append(['t', draw(st.sampled_from(['a', 'bc', 'd'])), lo])
            caps.append({'s': t, 'e': t + 1000000, 'nodes': ns, 'layout': draw(pick if writer != 'sami' else rare)})
        langs.append([lg, {'caps': caps, 'layout': draw(pick)}])
    d = {'langs': langs, 'layout': draw(pick) if writer == 'sami' else None}
    if writer == 'sami' and draw(st.booleans()):
        d['styles'] = {'s1': {'color': 'red'}}
    case = {'set': d, 'opts': opts, 'writer': writer}
    if writer != 'sami':
        case['lang'] = draw(st.sampled_from([None, None, None] + [lg for lg, _ in langs]))
    return case


def units_grid(tier):
    """each unit x value x component x dimensions x writer"""
    for u in UNITS:
        for v in GRID[u] + (['2', '3', '4', '5', '6', '8', '9', '11', '16', '17', '33.3', '63.99'] if tier != 'quick'
                            or u != '%' else []):
            for slot in range(4):
                for opts in ({'video_width': 640, 'video_height': 360}, {'video_width': 720}, {'video_height': 576},
                             {}, {'video_width': 1920, 'video_height': 1080, 'fit_to_screen': False}):
                    for w in ('dfxp', 'webvtt', 'sami'):
                        z = ['10', '%']
                        s = [v, u]
                        lo = [{'o': [s, z]}, {'o': [z, s]}, {'p': [s, z, z, s], 'o': [z, z]},
                              {'p': [z, s, s, z], 'o': [z, z], 'e': [z, z]}][slot]
                        yield {'set': {'langs': [['en', {'layout': lo, 'caps': [
                            {'s': 0, 'e': 1000000, 'nodes': [['t', 'a']]}]}]]}, 'opts': opts, 'writer': w}


def one_slot(tier):
    """one length of the eight is absolute (or the only one there), with every option"""
    z = ['10', '%']
    for slot in range(8):
        for u in UNITS[:4]:
            for others in (True, False):
                full = [z, z, ['40', '%'], ['40', '%'], z, z, z, z] if others else [None] * 8
                full[slot] = ['2', u] if u != 'px' else ['32', u]
                if not others and slot < 4:
                    full[slot ^ 1] = z
                lo = {k: v for k, v in (('o', full[:2]), ('e', full[2:4]), ('p', full[4:])) if any(v)}
                for dims in ({'video_width': 640, 'video_height': 360}, {'video_width': 640}, {'video_height': 360}, {}):
                    for relat in (True, False):
                        for fit in (True, False):
                            for w in ('dfxp', 'webvtt', 'sami'):
                                for level in ('language', 'caption', 'node'):
                                    if w == 'sami' and level != 'language':
                                        continue
                                    if relat is False and level == 'node' and tier == 'quick':
                                        continue
                                    n = ['t', 'a', lo] if level == 'node' else ['t', 'a']
                                    c = {'s': 0, 'e': 1000000, 'nodes': [n]}
                                    lg = {'caps': [c]}
                                    if level != 'node':
                                        (lg if level == 'language' else c)['layout'] = lo
                                    yield {'set': {'langs': [['en', lg]]}, 'writer': w,
                                           'opts': dict(dims, relativize=relat, fit_to_screen=fit)}


def edges(tier):
    """origins and extents around the safe edges, as percentages and as pixels"""
    xs = ['0', '10', '45', '89.99', '90', '90.01', '33.33']
    ws = [None, '0', '10', '44.99', '45', '45.01', '80', '79.99', '90', '90.01', '100', '56.67', '0.01']
    for i in (0, 1):
        for x in xs + (['94.99', '95', '95.01'] if i else []):
            for wd in ws + (['50', '50.01', '85', '85.01'] if i else []):
                for px in (False, True):
                    for writer in ('dfxp', 'webvtt'):
                        dims = (200, 100)[i] if px else None

                        def sz(v, k=i, d=dims):
                            return [v, '%'] if d is None else [str(F(v) * d / 100) if (
                                F(v) * d / 100).denominator == 1 else repr(float(F(v) * d / 100)), 'px']
                        o, e = [['20', '%'], ['20', '%']], [['30', '%'], ['30', '%']]
                        o[i] = sz(x)
                        if wd is not None:
                            e[i] = sz(wd)
                        lo = {'o': o}
                        if wd is not None:
                            lo['e'] = e
                        yield {'set': {'langs': [['en', {'caps': [
                            {'s': 0, 'e': 1000000, 'nodes': [['t', 'a']], 'layout': lo}]}]]},
                            'opts': {'video_width': 200, 'video_height': 100}, 'writer': writer}


@st.composite
def document(draw):
    opts = {}
    w, h = draw(st.sampled_from(DIMS))
    k = draw(st.integers(0, 7))
    if k not in (0, 1):
        opts['video_width'] = w
    if k not in (0, 2):
        opts['video_height'] = h
    if draw(st.booleans()):
        opts['fit_to_screen'] = False
    return {'doc': draw(docs.doc(['dfxp', 'sami', 'scc', 'sami'])), 'opts': opts,
            'writer': draw(st.sampled_from(['dfxp', 'webvtt', 'sami']))}


FACETS = [
    Enum('units', units_grid, run),
    Enum('one-length', one_slot, run),
    Enum('edges', edges, run),
    Facet('api', api, run, quick=7000),
    Facet('read', document, run, quick=1500),
]
