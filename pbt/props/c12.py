"""C12: positioning survives DFXP round trips and maps faithfully to WebVTT settings."""
import html
import re
from decimal import Decimal as D

from pbt import big, docs, model, parsers, writers
from pbt.core import Enum, Facet, check, fail
from pbt.gen import st

PROPERTY = 'C12'
RULE = ('A case is a caption set with percentage layouts (origin, extent, padding, alignment, any of them absent) at '
        'language, caption and node level, many of them equal or nearly so, or a generated document. DFXP output '
        'read back must give each visible character its effective layout (node, else caption, else language; absent '
        'alignments as start / after). Every cue of the WebVTT output must carry the settings computed in decimal '
        'arithmetic from the layout, cues of one caption split exactly where the layout changes. Cue settings of '
        'generated WebVTT documents must come back verbatim. Non-trivial: two different effective layouts, or one '
        'that differs from the default.')
ASSUMPTIONS = [
    'with fit_to_screen on, layouts have an extent that fits or (WebVTT) none; the clamping itself is C13',
    'a text node without a layout inside a span that has one is not judged',
    'WebVTT settings are computed for layouts with an origin whose width exceeds the horizontal paddings',
    'values are compared as printed, with two decimals',
]
H = ['left', 'center', 'right', 'start', 'end']
V = ['top', 'center', 'bottom']
CENT = D('0.01')


def q(x):
    return D(repr(float(x))).quantize(CENT)


def eff(lo):
    """a layout as its printed components, absent alignments as in DFXP"""
    d = model.d_layout(lo) if not isinstance(lo, (dict, type(None))) else lo
    d = d or {}

    def sz(v):
        return None if v is None else tuple((None if s is None else (str(q(s[0])), s[1])) for s in v)
    p = d.get('p')
    if p is not None:
        p = [s if s is not None else [0, '%'] for s in p]
    a = d.get('a') or [None, None]
    return (sz(d.get('o')), sz(d.get('e')), sz(p), (a[0] or 'start', a[1] or 'bottom'))


def truthy(lo):
    return bool(lo) and any(lo.get(k) for k in 'oepaw')


def spec_chars(case):
    """per language and caption: [(visible character, effective layout spec)]"""
    out = []
    for lg, lst in case['set']['langs']:
        rows = []
        for c in lst['caps']:
            base = next((x for x in (c.get('layout'), lst.get('layout')) if truthy(x)), None)
            row = []
            for n in c['nodes']:
                if n[0] == 't':
                    lo = n[2] if len(n) > 2 and truthy(n[2]) else base
                    row += [(ch, lo) for ch in n[1] if not ch.isspace()]
            rows.append(row)
        out.append((lg, rows))
    return out


def set_chars(cs):
    out = []
    for lg in cs.get_languages():
        rows = []
        for c in cs.get_captions(lg):
            base = c.layout_info or cs.get_layout_info(lg)
            row = []
            for n in c.nodes:
                if n.type_ == n.TEXT:
                    lo = n.layout_info or base
                    row += [(ch, eff(lo)) for ch in n.content if not ch.isspace()]
            if row:
                rows.append(row)
        out.append((lg, rows))
    return out


def same(want, got, what, **detail):
    check([k for k, _ in want] == [k for k, _ in got], f'{what}: languages changed', want=[k for k, _ in want],
          got=[k for k, _ in got], **detail)
    for (lg, a), (_, b) in zip(want, got):
        check(len(a) == len(b), f'{what}: captions lost or added', **detail)
        for x, y in zip(a, b):
            check([c for c, _ in x] == [c for c, _ in y], f'{what}: text changed', want=x, got=y, **detail)
            for (c, p), (_, r) in zip(x, y):
                if p != r:
                    fail(f'{what}: character {c!r} has another layout', want=p, got=r, **detail)


def interest(rows, ctx):
    kinds = {x for _, cs in rows for r in cs for _, x in r}
    if len(kinds) > 1:
        ctx.label('several layouts')
    elif kinds <= {eff(None)}:
        ctx.trivial()


def run_dfxp(case, ctx):
    want = [(lg, [[(c, eff(lo)) for c, lo in r] for r in rows]) for lg, rows in spec_chars(case)]
    interest(want, ctx)
    cs = model.mk_set(case['set'])
    for i in range(case.get('times', 1)):
        out = writers.make('dfxp', case['opts']).write(cs)
        cs = writers.reader('dfxp').read(out)
        same(want, set_chars(cs), f'DFXP round trip {i + 1}', output=out)


# ---------------------------------------------------------------- WebVTT
def settings(text):
    out = {}
    for tok in text.split():
        check(tok.count(':') == 1, 'odd cue setting', setting=tok, line=text)
        k, v = tok.split(':')
        check(k in ('align', 'position', 'line', 'size') and k not in out, 'unexpected or repeated cue setting',
              setting=tok, line=text)
        if k != 'align':
            check(re.fullmatch(r'-?\d+(\.\d{1,2})?%', v), 'cue setting is not a percentage with two decimals',
                  setting=tok, line=text)
            v = D(v[:-1])
        out[k] = v
    return out


def want_settings(lo, fit):
    """None where the property says nothing"""
    if not truthy(lo):
        return {}
    a = (lo.get('a') or [None])[0] or 'start'
    w = {} if a == 'center' else {'align': a}
    o, e = lo.get('o'), lo.get('e')
    if not o:
        return None
    p = [D(x[0]) if x else D(0) for x in lo.get('p') or [None] * 4]
    x, y = D(o[0][0]), D(o[1][0])
    w['position'] = x + p[2]
    w['line'] = y + p[0]
    width = D(e[0][0]) if e else (90 - x if fit else None)
    if width is not None:
        w['size'] = width - p[2] - p[3]
        if w['size'] < 0:
            return None
    return w


def cues(out):
    lines = out.split('\n')
    check(lines[0] == 'WEBVTT' and lines[1] == '', 'no WebVTT header', output=out)
    res, prev_blank = [], True
    for i, ln in enumerate(lines[2:]):
        if '-->' in ln:
            check(prev_blank, 'a cue does not follow a blank line', line=ln, output=out)
            m = re.match(r'(\S+) --> (\S+)(?: (.*))?$', ln)
            check(m, 'odd timing line', line=ln, output=out)
            res.append([m.group(1, 2), m.group(3) or '', []])
        elif ln and res:
            res[-1][2].append(ln)
        prev_blank = not ln
    return res


def run_webvtt(case, ctx):
    rows = spec_chars(case)
    fit = case['opts'].get('fit_to_screen', True)
    cs = model.mk_set(case['set'])
    lang = case.get('lang')
    out = writers.make('webvtt', case['opts']).write(cs, lang) if lang else writers.make(
        'webvtt', case['opts']).write(cs)
    lg, caps = next(r for r in rows if r[0] == lang) if lang else rows[0]
    interest([(lg, [[(c, eff(lo)) for c, lo in r] for r in caps])], ctx)
    got = cues(out)
    i = 0
    for c, row in zip(dict(case['set']['langs'])[lg]['caps'], caps):
        runs = []
        for ch, lo in row:
            if not runs or eff_eq(runs[-1][1], lo) is False:
                runs.append(['', lo])
            runs[-1][0] += ch
        if len(runs) > 1:
            ctx.label('split caption')
        first = None
        for text, lo in runs:
            check(i < len(got), 'WebVTT: too few cues', want=runs, output=out)
            times, raw, lines = got[i]
            i += 1
            first = first or times
            check(times == first, 'WebVTT: cues of one caption have different times', output=out)
            plain = ''.join(parsers.vtt_text(lines)[0]) if lines else ''
            plain = ''.join(ch for ch in plain if not ch.isspace())
            check(plain == text, 'WebVTT: cues are not split where the layout changes', want=runs, got=[
                plain, raw], output=out)
            want = want_settings(lo, fit)
            if want is None:
                ctx.label('arithmetic not specified')
                s = settings(raw)
                if lo:
                    a = (lo.get('a') or [None])[0] or 'start'
                    check(s.get('align', 'center') == a, 'WebVTT: align', want=a, got=raw, output=out)
                continue
            have = settings(raw)
            ok = set(want) == set(have) and all(
                have[k] == v if k == 'align' else abs(have[k] - v) <= D('0.0050001') for k, v in want.items())
            check(ok, 'WebVTT: cue settings', want={k: str(v) for k, v in want.items()}, got=raw, layout=lo,
                  output=out)
    check(i == len(got), 'WebVTT: too many cues', got=len(got), want=i, output=out)


def eff_eq(a, b):
    return raw_eff(a) == raw_eff(b)


def raw_eff(lo):
    if not truthy(lo):
        return None
    p = lo.get('p')
    return repr([[[float(s[0]), s[1]] for s in lo[k]] if lo.get(k) else None for k in 'oe'] + [
        [[float(s[0]), s[1]] if s else [0.0, '%'] for s in p] if p else None, lo.get('a')])


# ---------------------------------------------------------------- generators
VALS = ['0', '5', '10', '10.01', '12.5', '20', '33.33', '40', '45', '0.01', '47.5', '1', '0.5', '0.99']
BIG = VALS + ['50', '66.67', '80', '90', '95', '100', '99.99']


def sz(vals):
    return st.sampled_from(vals).map(lambda v: [v, '%'])


@st.composite
def layout(draw, fit, origin=None):
    vals = VALS if fit else BIG
    d = {}
    k = draw(st.integers(0, 15))
    if origin if origin is not None else k & 1:
        d['o'] = [draw(sz(vals)), draw(sz(vals))]
    if k & 2 or (fit and 'o' in d and origin is None):
        d['e'] = [draw(sz(vals)), draw(sz(vals))]
        if fit and 'o' in d:
            # at the edge sometimes
            for i, edge in ((0, 90), (1, 95)):
                if draw(st.integers(0, 4)) == 0:
                    d['e'][i] = [str(edge - D(d['o'][i][0])), '%']
                elif D(d['o'][i][0]) + D(d['e'][i][0]) > edge:
                    d['e'][i] = ['40', '%']
    if k & 4:
        small = ['0', '0', '1', '2.5', '5', '3.33', '0.01', '10']
        kind = draw(st.integers(0, 3))
        d['p'] = [draw(st.one_of(st.none(), sz(small))) for _ in range(4)] if kind else [draw(sz(small))] * 4
    if k & 8 or not d:
        d['a'] = [draw(st.sampled_from(H + [None])), draw(st.sampled_from(V + [None]))]
        if d['a'] == [None, None]:
            d['a'][0] = 'center'
    return d


@st.composite
def near(draw, d):
    """the same, a copy with one thing changed, or with two values swapped"""
    d = {k: [list(x) if isinstance(x, list) else x for x in v] for k, v in d.items()}
    k = draw(st.sampled_from(sorted(d) + ['same']))
    if k == 'same' or (k in 'oe' and draw(st.booleans())):
        if k != 'same':
            d[k] = d[k][::-1]
    elif k == 'p':
        i, j = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        d['p'][i], d['p'][j] = d['p'][j], d['p'][i]
    elif k == 'a':
        d['a'] = [draw(st.sampled_from(H)), draw(st.sampled_from(V))]
    else:
        d[k][draw(st.integers(0, 1))] = ['7', '%']
    return d


def fits(d):
    if 'o' not in d or 'e' not in d:
        return True
    x, y, w, h = (D(s[0]) for s in d['o'] + d['e'])
    return x + w <= 90 and y + h <= 95


@st.composite
def api(draw, web=False):
    fit = draw(st.booleans())
    opts = {'fit_to_screen': fit}
    opts.update(draw(st.sampled_from([{}, {'relativize': False}, {'video_width': 640, 'video_height': 360}])))
    origin = {0: True, 1: True, 2: None}[draw(st.integers(0, 2))] if web else None
    pool = [draw(layout(fit, origin)) for _ in range(draw(st.integers(1, 2)))]
    for _ in range(draw(st.integers(0, 3))):
        d = draw(near(draw(st.sampled_from(pool))))
        if not fit or (fits(d) and ('o' not in d or 'e' in d or web)):
            pool.append(d)
    if draw(st.integers(0, 3)) == 0:
        pool.append({'a': ['start', 'bottom']})
    pick = st.one_of(st.none(), st.sampled_from(pool), st.sampled_from(pool))
    langs, t = [], 0
    for lg in draw(st.sampled_from([['en'], ['en', 'fr'], ['fr', 'en-US', 'de']])):
        caps = []
        for _ in range(draw(st.integers(1, 3))):
            t += 2000000
            nodes = []
            for _ in range(draw(st.integers(1, 4))):
                k = draw(st.integers(0, 7))
                lo = draw(pick)
                if k == 0:
                    nodes.append(['b', lo])
                elif k == 1:
                    sty = draw(st.sampled_from([{'italics': True}, {'color': 'red'}, {}]))
                    sl = draw(st.sampled_from([None, lo]))
                    nodes += [['s', True, sty, sl], ['t', draw(word()), lo], ['s', False, sty, sl]]
                else:
                    nodes.append(['t', draw(word()), lo])
            nodes.insert(draw(st.sampled_from([0, len(nodes)])), ['t', draw(word()), draw(pick)])
            caps.append({'s': t, 'e': t + 1000000, 'nodes': nodes, 'layout': draw(pick)})
        langs.append([lg, {'caps': caps, 'layout': draw(pick)}])
    case = {'set': {'langs': langs}, 'opts': opts}
    if web:
        case['lang'] = draw(st.sampled_from([None] + [lg for lg, _ in langs]))
    else:
        case['times'] = draw(st.sampled_from([1, 1, 2]))
    return case


def word():
    return st.sampled_from(['a', 'bc', 'De f', ' g', 'h ', 'i & j', '1 < 2', 'ü', '-->'])


# ---------------------------------------------------------------- exhaustive
def one(lo, level, text='ab'):
    cap = {'s': 1000000, 'e': 2000000, 'nodes': [['t', text, lo if level == 'n' else None]],
           'layout': lo if level == 'c' else None}
    return {'langs': [['en', {'caps': [cap], 'layout': lo if level == 'l' else None}]]}


def alignments(tier):
    for h in H + [None]:
        for v in V + [None]:
            if not (h or v):
                continue
            for level in 'lcn':
                for rest in ({}, {'o': [['10', '%'], ['20', '%']], 'e': [['30', '%'], ['40', '%']]}):
                    yield {'set': one(dict(rest, a=[h, v]), level), 'opts': {}}


def run_align(case, ctx):
    run_dfxp(case, ctx)
    run_webvtt(case, ctx)


def layers(tier):
    """every choice among none and three layouts at the three levels, twice over in one caption"""
    pool = [None, {'o': [['10', '%'], ['20', '%']], 'e': [['30', '%'], ['40', '%']]},
            {'o': [['20', '%'], ['10', '%']], 'e': [['30', '%'], ['40', '%']]},
            {'a': ['start', 'bottom']}]
    for a in pool:
        for b in pool:
            for c in pool:
                for d in pool:
                    for brk in (0, 1):
                        nodes = [['t', 'x', c]] + [['b', c]] * brk + [['t', 'y', d]]
                        cap = {'s': 1000000, 'e': 2000000, 'nodes': nodes, 'layout': b}
                        two = {'s': 3000000, 'e': 4000000, 'nodes': [['t', 'z', None]], 'layout': None}
                        yield {'set': {'langs': [['en', {'caps': [cap, two], 'layout': a}]]}, 'opts': {}}


# ---------------------------------------------------------------- documents
@st.composite
def document(draw):
    """a DFXP document whose regions carry their attributes inline, in a nested or in a referenced style"""
    regions, styles = [], []
    for i in range(draw(st.integers(1, 3))):
        r = {'attrs': {}, 'where': {}}
        k = draw(st.integers(1, 15))
        if k & 1:
            r['attrs']['tts:origin'] = [draw(st.sampled_from(BIG)) for _ in 'xy']
        if k & 2:
            r['attrs']['tts:extent'] = [draw(st.sampled_from(BIG)) for _ in 'xy']
        if k & 4:
            r['attrs']['tts:padding'] = [draw(st.sampled_from(['0', '1', '2', '3.5', '4'])) for _ in range(
                draw(st.integers(1, 4)))]
        if k & 8 or draw(st.booleans()):
            r['attrs']['tts:textAlign'] = draw(st.sampled_from(H))
        if draw(st.booleans()):
            r['attrs']['tts:displayAlign'] = draw(st.sampled_from(['before', 'center', 'after']))
        for a in r['attrs']:
            r['where'][a] = draw(st.sampled_from(['inline', 'inline', 'nested', 'ref', 'chain']))
        regions.append(r)
    ids = [None] + list(range(len(regions)))
    divs = []
    for _ in range(draw(st.integers(1, 2))):
        ps = []
        for _ in range(draw(st.integers(1, 3))):
            parts = [[draw(st.sampled_from(['a', 'bc', 'd'])), draw(st.sampled_from([0, 0, 1])),
                      draw(st.sampled_from(ids))] for _ in range(draw(st.integers(1, 3)))]
            ps.append({'region': draw(st.sampled_from(ids)), 'parts': parts,
                       'align': draw(st.sampled_from([None, None, None] + H))})
        divs.append({'region': draw(st.sampled_from(ids)), 'ps': ps})
    _ = styles
    return {'regions': regions, 'divs': divs}


NAMES = ['r0', 'top', 'R-1']


def dfxp_doc(case):
    sts, regs, body = '', '', ''
    for i, r in enumerate(case['regions']):
        by = {'inline': '', 'nested': '', 'ref': '', 'chain': ''}
        for a, v in r['attrs'].items():
            val = v if isinstance(v, str) else ' '.join(x + '%' for x in v)
            by[r['where'][a]] += f' {a}="{val}"'
        ref = ''
        if by['ref'] or by['chain']:
            ref = f' style="s{i}"'
            nxt = f' style="t{i}"' if by['chain'] else ''
            sts += f'<style xml:id="s{i}"{nxt}{by["ref"]}/>'
            if by['chain']:
                sts += f'<style xml:id="t{i}"{by["chain"]}/>'
        nested = f'<style{by["nested"]}/>' if by['nested'] else ''
        regs += f'<region xml:id="{NAMES[i]}"{by["inline"]}{ref}>{nested}</region>'
    t, want = 0, []

    def at(i):
        return '' if i is None else f' region="{NAMES[i]}"'
    for d in case['divs']:
        body += f'<div{at(d["region"])}>\n'
        for p in d['ps']:
            al = f' tts:textAlign="{p["align"]}"' if p['align'] else ''
            body += f'<p begin="{t}s" end="{t + 1}s"{at(p["region"])}{al}>'
            t += 1
            row = []
            for text, span, reg in p['parts']:
                if span:
                    body += f'<span{at(reg)}>{html.escape(text)}</span>'
                else:
                    body += html.escape(text)
                r = next((x for x in ([reg] if span else []) + [p['region'], d['region']] if x is not None), None)
                a = dict(case['regions'][r]['attrs']) if r is not None else {}
                if p['align']:
                    a['tts:textAlign'] = p['align']
                row += [(ch, doc_layout(a)) for ch in text]
            want.append(row)
            body += '</p>\n'
        body += '</div>\n'
    text = ('<?xml version="1.0" encoding="utf-8"?>\n<tt xmlns="http://www.w3.org/ns/ttml" '
            'xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><head><styling>' + sts +
            '</styling><layout>' + regs + '</layout></head><body>\n' + body + '</body></tt>')
    return text, want


def doc_layout(a):
    d = {}
    for k, n in (('tts:origin', 'o'), ('tts:extent', 'e')):
        if k in a:
            d[n] = [[v, '%'] for v in a[k]]
    if 'tts:padding' in a:
        v = [[x, '%'] for x in a['tts:padding']]
        b, e, af, s = {1: v * 4, 2: v * 2, 3: v + v[1:2], 4: v}[len(v)]
        d['p'] = [b, af, s, e]
    dv = {'before': 'top', 'center': 'center', 'after': 'bottom', None: None}[a.get('tts:displayAlign')]
    d['a'] = [a.get('tts:textAlign'), dv]
    return eff(d)


def resolvable(case):
    """no element without a region of its own or above has one below it (the reader looks there too)"""
    for d in case['divs']:
        below = any(p['region'] is not None or any(s and r is not None for _, s, r in p['parts']) for p in d['ps'])
        if d['region'] is None:
            if below and not all(p['region'] is not None for p in d['ps']):
                return False
    return True


def run_document(case, ctx):
    ctx.require(resolvable(case), 'region from below')
    text, want = dfxp_doc(case)
    want = [('en', want)]
    interest(want, ctx)
    cs = writers.reader('dfxp').read(text)
    same(want, set_chars(cs), 'DFXP reader', document=text)
    out = writers.make('dfxp', {'fit_to_screen': False}).write(cs)
    same(want, set_chars(writers.reader('dfxp').read(out)), 'DFXP round trip', document=text, output=out)


@st.composite
def any_doc(draw):
    return {'doc': draw(docs.doc(['sami', 'scc', 'scc', 'dfxp', 'webvtt'])),
            'opts': draw(st.sampled_from([{}, {'relativize': False}]))}


def run_any(case, ctx):
    try:
        cs = docs.read(case['doc'])
    except Exception as e:  # noqa: B902
        ctx.require(False, f'reader refused the document: {type(e).__name__}')
    los = [lo for lo in [cs.layout_info] if lo] + [lo for lg in cs.get_languages() for lo in [cs.get_layout_info(lg)] + [
        x.layout_info for c in cs.get_captions(lg) for x in [c] + list(c.nodes)] if lo]
    ctx.require(all(lo.is_relative() for lo in los), 'absolute lengths')
    ctx.require(all(re.fullmatch('[A-Za-z0-9-]+', k) for k in cs.get_languages()), 'odd language name')
    ctx.require(not any('text-align' in v for k, v in cs.get_styles()), 'alignment in a style')
    for lg in cs.get_languages():
        for c in cs.get_captions(lg):
            ctx.require('text-align' not in c.style and not any(
                n.type_ == n.STYLE and ('text-align' in n.content or n.layout_info) for n in c.nodes
                if n.type_ == n.STYLE) or case['doc']['fmt'] in ('scc', 'webvtt'), 'alignment in a style')
    want = set_chars(cs)
    ctx.require(all(r for _, r in want), 'a language without visible characters')
    interest(want, ctx)
    ctx.label('from ' + case['doc']['fmt'])
    out = writers.make('dfxp', dict(case['opts'], fit_to_screen=False)).write(cs)
    same(want, set_chars(writers.reader('dfxp').read(out)), f'{case["doc"]["fmt"]} to DFXP and back', output=out)


# ---------------------------------------------------------------- verbatim settings
@st.composite
def vtt(draw):
    tok = st.one_of(
        st.sampled_from(['align:left', 'align:start', 'align:center', 'align:middle', 'position:10%', 'position:0%',
                         'position:50%,line-left', 'line:0', 'line:-1', 'line:84.5%', 'line:5%,end', 'size:35%',
                         'vertical:rl', 'region:fred', 'size:100%', 'line:84.66%', 'align:end position:1.234%']),
        st.text(st.sampled_from('abz:%,.-019"<&>=;é#'), min_size=1, max_size=6).filter(lambda s: '-->' not in s))
    cs = []
    for _ in range(draw(st.integers(1, 4))):
        toks = draw(st.lists(tok, max_size=4))
        sep = draw(st.sampled_from([' ', ' ', '  ', '\t', ' \t']))
        cs.append([sep.join(toks), draw(st.sampled_from([' ', ' ', '  ', '\t'])), draw(st.sampled_from(['', '', ' '])),
                   draw(st.lists(st.sampled_from(['a', 'b c', '<i>d</i>']), min_size=1, max_size=3))])
    return {'cues': cs, 'opts': draw(st.sampled_from([{}, {'relativize': False}, {'fit_to_screen': False},
                                                      {'video_width': 640, 'video_height': 360}])),
            'times': draw(st.integers(1, 2))}


def run_vtt(case, ctx):
    text, t = 'WEBVTT\n\n', 0
    for s, before, after, lines in case['cues']:
        text += f'00:{t:02d}.000 --> 00:{t + 1:02d}.000' + (before + s + after if s else '') + '\n' + '\n'.join(
            lines) + '\n\n'
        t += 1
    want = [c[0] for c in case['cues']]
    if len(set(want)) < 2:
        ctx.trivial()
    out = text
    for _ in range(case['times']):
        out = writers.make('webvtt', case['opts']).write(writers.reader('webvtt').read(out))
        got = [c[1] for c in cues(out)]
        check(got == want, 'WebVTT: cue settings are not those of the source', want=want, got=got, source=text,
              output=out)


def long(tier):
    """more layouts than any counter has digits"""
    for n in (12, 130):
        caps = big.caps(f'c12{n}', n, grid=1000)
        for i, c in enumerate(caps):
            c['layout'] = {'o': [[str(i % 90), '%'], [str(i // 3), '%']], 'a': ['left', 'top']} if i % 7 else None
            c['nodes'] = [['t', f'w{i}', None]] + ([['b', None], ['t', f'v{i}', {
                'o': [[str(i % 80), '%'], [str(5 + i // 3), '%']]}]] if i % 4 == 0 else [])
        yield {'set': {'langs': [['en', {'caps': caps}]]}, 'opts': {'fit_to_screen': False}}


FACETS = [
    Enum('alignments', alignments, run_align),
    Enum('layers', layers, run_align),
    Facet('dfxp', api, run_dfxp, quick=3500),
    Facet('webvtt', lambda: api(web=True), run_webvtt, quick=4500),
    Facet('document', document, run_document, quick=1500),
    Facet('read', any_doc, run_any, quick=1500),
    Facet('verbatim', vtt, run_vtt, quick=1500),
    Enum('long', long, run_dfxp, hang_s=60),
]
