"""C08: any chain of conversions preserves the cue timeline and text."""
import itertools
import re

from pbt import big, docs, model, sets, writers
from pbt.core import Enum, Facet, check
from pbt.gen import WORDS, hostile_line, st, words
from pbt.model import cap_lines

PROPERTY = 'C08'
RULE = ('A case is a caption set (API-built, or read from a generated document) with sorted non-overlapping '
        'cues and a chain of 1-6 formats; it is written and read back along the chain, twice. After every '
        'hop each language must have the same text lines and the times of the hop before, cut to whole '
        'milliseconds (MicroDVD: moved by less than a frame, onto the frame grid, and not at all when on '
        'it already); the last cue end after SAMI is free. The second pass must change nothing. '
        'Non-trivial: more than one format, or a time that is not a whole frame.')
ASSUMPTIONS = [
    'cues last at least 1 ms, and at least one frame (40 ms) on chains with MicroDVD',
    "SRT, WebVTT and MicroDVD hold one language per file: a set of several languages is written there "
    'language by language',
    'no vertical bar, leading slash or braces on chains with MicroDVD (its control syntax)',
    'captions whose nodes have different layouts are C12\'s subject (WebVTT splits them)',
    'style names and style sheet values are valid CSS on chains with SAMI (its reader refuses an invalid colour)',
    'in the main facets a span starts and ends at word boundaries; the mid-word facet has the others',
]
FORMATS = ['srt', 'webvtt', 'dfxp', 'sami', 'microdvd']
FRAME = 40000
VIDEO = {'video_width': 640, 'video_height': 360}


def known_sami_blank(facet, case, msg):
    """SAMI puts a blank after every text node and span, which shows inside a word"""
    return (facet == 'mid-word' and 'sami' in case['chain'] and msg.startswith('text differs by blanks only'))


KNOWN = {'sami-blank-at-span': known_sami_blank}


def read_by_converter(out, fmt):
    from pycaption import CaptionConverter
    conv = CaptionConverter()
    back = conv.read(out, writers.reader(fmt))
    check(back is not None and hasattr(back, 'captions'), 'CaptionConverter.read does not return the converter', got=repr(back))
    return back


def hop(cs, fmt, conv=False):
    """write and read back; conv: by way of a CaptionConverter, as the documentation does it"""
    from pycaption import CaptionConverter, CaptionSet
    opts = {} if fmt in ('srt', 'microdvd') else VIDEO
    if fmt in ('dfxp', 'sami'):
        if conv:
            out = CaptionConverter(cs).write(writers.make(fmt, opts))
            return read_by_converter(out, fmt).captions
        out = writers.make(fmt, opts).write(cs)
        return writers.reader(fmt).read(out)
    res = {}
    styles = {}
    for lg in cs.get_languages():
        sub = CaptionSet({lg: cs.get_captions(lg)}, styles=dict(cs.get_styles()), layout_info=cs.layout_info)
        if conv:
            out = CaptionConverter(sub).write(writers.make(fmt, opts))
            got = read_by_converter(out, fmt).captions
            check(len(got.get_languages()) == 1, 'language lost', got=got.get_languages(), want=lg)
        else:
            out = writers.make(fmt, opts).write(sub)
            got = writers.reader(fmt).read(out, lang=lg)
            check(got.get_languages() == [lg], 'language lost', got=got.get_languages(), want=lg)
        res[lg] = got.get_captions(got.get_languages()[0])
        styles.update(dict(got.get_styles()))
    return CaptionSet(res, styles=styles)


def timeline(cs):
    return {lg: [(c.start, c.end, cap_lines(c)) for c in cs.get_captions(lg)] for lg in cs.get_languages()}


def compare(prev, got, fmt, chain, original):
    check(sorted(got) == sorted(prev), 'languages changed', before=sorted(prev), after=sorted(got), chain=chain)
    for lg in prev:
        a, b = prev[lg], got[lg]
        check(len(a) == len(b), f'{len(a)} cues became {len(b)} through {fmt}', before=a, after=b, chain=chain)
        for i, ((s0, e0, t0), (s1, e1, t1)) in enumerate(zip(a, b)):
            if t0 != t1:
                blank = [''.join(x.split()) for x in t0] == [''.join(x.split()) for x in t1]
                check(False, ('text differs by blanks only' if blank else 'text differs') + f' through {fmt}',
                      before=t0, after=t1, chain=chain)
            for name, x0, x1 in (('start', s0, s1), ('end', e0, e1)):
                if name == 'end' and fmt == 'sami' and i == len(a) - 1:
                    continue
                if fmt == 'microdvd':
                    ok = x1 % FRAME == 0 and abs(x1 - x0) < FRAME and (x0 % FRAME or x1 == x0)
                else:
                    ok = x1 == x0 // 1000 * 1000
                check(ok, f'{name} {x0} became {x1} through {fmt}', chain=chain, language=lg, cue=i)
            # against the original, at the coarsest resolution so far
            o = original[lg][i]
            check(abs(s1 - o[0]) < (FRAME + 1000), 'start drifted', original=o[0], now=s1, chain=chain)


def run(case, ctx):
    chain = case['chain']
    if 'doc' in case:
        ctx.label('from ' + case['doc']['fmt'])
        try:
            cs = docs.read(case['doc'])
        except Exception as e:  # noqa: B902
            ctx.require(False, f'reader refused the document: {type(e).__name__}')
        domain(cs, case, ctx)
    else:
        cs = model.mk_set(case['set'])
        if case.get('rich'):
            domain(cs, case, ctx)
    first = timeline(cs)
    ctx.label(f'length {len(chain)}', *['via ' + f for f in set(chain)])
    if len(chain) == 1 and all(x % FRAME == 0 for v in first.values() for c in v for x in c[:2]):
        ctx.trivial()
    if len(first) > 1:
        ctx.label('several languages')
    prev = first
    ends = []
    for pas in (1, 2):
        for fmt in chain:
            cs = hop(cs, fmt, conv=pas == 2)
            got = timeline(cs)
            compare(prev, got, fmt, chain, first)
            prev = got
        ends.append(prev)
    check(ends[0] == ends[1], 'the second pass changed the captions', first=ends[0], second=ends[1], chain=chain)


def domain(cs, case, ctx):
    """refuse captions outside the property's domain"""
    if 'sami' in case['chain']:
        for name, sty in cs.get_styles():
            ctx.require(re.fullmatch(r'[^\W\d]([\w.-]*\w)?', name), 'style name is not CSS')
            ctx.require(all(re.fullmatch(r'[\w#%., ()-]+', str(v)) for v in sty.values()), 'style value is not CSS')
    least = FRAME if 'microdvd' in case['chain'] else 1000
    for lg in cs.get_languages():
        caps = cs.get_captions(lg)
        ctx.require(re.fullmatch('[A-Za-z]+(-[A-Za-z0-9]+)*', lg), 'language name is not a tag')
        ctx.require(len(caps), 'a language without cues')
        t = 0
        for c in caps:
            ctx.require(isinstance(c.start, int) and isinstance(c.end, int), 'fractional times')
            ctx.require(c.start >= t and c.end - c.start >= least, 'overlapping or too short cues')
            t = c.end
            ctx.require(cap_lines(c), 'cue without visible text')
            ctx.require(len({repr(model.d_layout(n.layout_info)) for n in c.nodes}) < 2, 'several layouts in a cue')
            if 'sami' in case['chain']:
                spaced = ''.join('\n' if n.type_ == n.BREAK else n.content + ' ' if n.type_ == n.TEXT else ''
                                 for n in c.nodes)
                ctx.require(model.norm_lines(spaced) == cap_lines(c), 'node boundary inside a word, SAMI')
            ctx.require('microdvd' not in case['chain'] or not any(
                ch in x or x.startswith('/') for x in cap_lines(c) for ch in '|{}'), 'MicroDVD control characters')
        ctx.require(t < 86395000000, 'beyond 24 hours')


STYLES = [{'italics': True}, {'bold': True}, {'underline': True}, {'color': 'red'}, {'italics': True, 'bold': True}]


@st.composite
def line_nodes(draw, mdvd, mid=False):
    ex = ['|', '{', '}'] if mdvd else []
    ln = draw(st.one_of(words(), hostile_line(6, exclude=ex)))
    if mdvd:
        ln = ln.lstrip('/ ') or 'w'
    if mid or draw(st.integers(0, 3)) == 0:
        cuts = sorted(draw(st.lists(st.integers(0, len(ln)), min_size=1, max_size=3)))
        parts = [ln[a:b] for a, b in zip([0] + cuts, cuts + [len(ln)])]
        if not mid:
            parts = ln.split(' ')
            parts = [p + (' ' if i < len(parts) - 1 else '') for i, p in enumerate(parts)]
        out = []
        for p in parts:
            if not p:
                continue
            sty = draw(st.sampled_from([None, None] + STYLES))
            if not mid and sty:
                out += [['s', True, sty], ['t', p.rstrip()], ['s', False, sty]]
                if p != p.rstrip():
                    out.append(['t', ' '])
            elif sty:
                out += [['s', True, sty], ['t', p], ['s', False, sty]]
            else:
                out.append(['t', p])
        return out or [['t', 'w']]
    return [['t', ln]]


# h:m:s with zeros in it, or the last of its minute or hour
ROUND = st.builds(lambda h, m, x, us: (h * 3600 + m * 60 + x) * 10 ** 6 + us, st.integers(0, 23),
                  st.sampled_from([0, 0, 0, 1, 10, 30, 59]), st.sampled_from([0, 0, 0, 1, 10, 30, 59]),
                  st.sampled_from([0, 0, 0, 1000, 10000, 40000, 100000, 999000, 999999]))


@st.composite
def cues(draw, n, least, mdvd, mid=False):
    caps = []
    t = draw(st.one_of(st.sampled_from([0, 1000, 40000, 3599999999, 86390000000]), ROUND,
                       st.integers(0, 80000 * 10 ** 6)))
    for _ in range(n):
        d = draw(st.one_of(st.integers(least, 5 * 10 ** 6), st.sampled_from([least, 1000000, 2500000, 4000000, 5000000])))
        if t > 86395 * 10 ** 6 or t + d >= 86400 * 10 ** 6:
            break   # SAMI's last cue lasts four seconds
        nodes = []
        nodes += [['b']] * draw(st.sampled_from([0, 0, 0, 0, 0, 1]))
        for i in range(draw(st.integers(1, 3))):
            if i:
                nodes += [['b']] * draw(st.sampled_from([1, 1, 1, 2]))
            nodes += draw(line_nodes(mdvd, mid))
        nodes += [['b']] * draw(st.sampled_from([0, 0, 0, 0, 0, 1]))
        if any(x[0] == 't' and x[1].strip() for x in nodes):
            caps.append({'s': t, 'e': t + d, 'nodes': nodes})
        t += d + draw(st.one_of(st.sampled_from([0, 0, 1000, 40000]), st.integers(0, 3 * 10 ** 6)))
        if draw(st.integers(0, 5)) == 0:        # on to a whole minute, hour, ...
            t = max(t, draw(ROUND))
    return caps or [{'s': 0, 'e': 1000000, 'nodes': [['t', 'w']]}]


LANGS = ['en', 'en-US', 'fr', 'de', 'es-ES']


@st.composite
def chains(draw, hi=6):
    return draw(st.lists(st.sampled_from(FORMATS), min_size=1, max_size=hi))


@st.composite
def api_case(draw, mid=False):
    chain = draw(chains(3 if mid else 6))
    mdvd = 'microdvd' in chain
    langs = draw(st.lists(st.sampled_from(LANGS), min_size=1, max_size=2, unique=True))
    return {'chain': chain, 'set': {'langs': [
        [lg, {'caps': draw(cues(draw(st.integers(1, 4)), FRAME if mdvd else 1000, mdvd, mid))}]
        for lg in langs]}}


@st.composite
def read_case(draw):
    return {'chain': draw(chains(4)), 'doc': draw(docs.doc(['srt', 'webvtt', 'dfxp', 'sami', 'microdvd', 'scc']))}


@st.composite
def rich_case(draw):
    """layouts, style classes, spans with any attributes, nested spans"""
    chain = draw(chains(4))
    s = draw(sets.caption_set(max_langs=2, min_langs=1))
    names = draw(st.permutations(LANGS))
    for i, lg in enumerate(s['langs']):
        lg[0] = names[i]
        t = 0
        same = draw(st.integers(0, 5))
        pad = draw(st.integers(0, 3))
        for c in lg[1]['caps']:
            t += draw(st.sampled_from([0, 0, 1000, 40000, 999000]))
            c['s'] = t
            t += draw(st.sampled_from([40000, 1000000, 1234567]))
            c['e'] = t
            if same:        # one layout per caption, or the case is excluded more often than not
                lay = draw(st.sampled_from([None, c['layout']]))
                c['nodes'] = [with_layout(n, lay) for n in c['nodes']]
            for n in c['nodes']:        # read back as a layout, C12's subject
                if n[0] == 's':
                    n[2].pop('text-align', None)
            if pad:         # words end at node boundaries
                c['nodes'] = [n[:1] + [n[1] + ' '] + n[2:] if n[0] == 't' else n for n in c['nodes']]
        if not lg[1]['caps']:
            lg[1]['caps'] = [{'s': 0, 'e': 1000000, 'nodes': [['t', 'w']]}]
    for sty in s['styles'].values():
        sty.pop('text-align', None)
    if 'sami' in chain:      # its reader refuses an invalid colour, and the style sheet is CSS
        for name in list(s['styles']):
            if not re.fullmatch(r'[^\W\d]([\w.-]*\w)?', name):
                del s['styles'][name]
        for sty in s['styles'].values():
            for k in sets.KEYS:
                if k in sty:
                    sty[k] = VALID.get(k, 'Arial')
    return {'chain': chain, 'set': s, 'rich': True}


VALID = {'color': '#0f0', 'font-size': '10px', 'text-align': 'center', 'display-align': 'after'}


def with_layout(n, lay):
    k = {'t': 2, 's': 3, 'b': 1}[n[0]]
    return n[:k] + [lay]


def fixed_sets():
    i = {'italics': True}
    cap = lambda s, e, *lines: {'s': s, 'e': e, 'nodes': model.lines_nodes(list(lines))}  # noqa: E731
    yield {'langs': [['en', {'caps': [cap(0, 1000000, 'Hello & <world>', '"q"'), cap(1000000, 2345678, '2'),
                                      cap(5000001, 5999999, "it's --> x", '1', '3')]}]]}
    yield {'langs': [['fr', {'caps': [cap(40000, 80000, 'a'), cap(80000, 120000, 'b'), cap(3599960000, 3600000000, 'c'),
                                      cap(86395000000, 86399960000, 'd')]}]]}
    yield {'langs': [['en', {'caps': [{'s': 123456, 'e': 654321, 'nodes': [
        ['t', 'one '], ['s', True, i], ['t', 'two'], ['s', False, i], ['t', ' three'], ['b'],
        ['s', True, i], ['t', 'four'], ['b'], ['t', 'five'], ['s', False, i]]}]}],
        ['de', {'caps': [cap(500000, 900000, 'eins'), cap(1200000, 1700000, 'zwei & drei')]}]]}


def enum(tier):
    n = 3 if tier == 'quick' else 4
    for s in fixed_sets():
        for k in range(1, n + 1):
            for ch in itertools.product(FORMATS, repeat=k):
                if k == 3 and tier == 'quick' and len(set(ch)) < 3:
                    continue
                yield {'chain': list(ch), 'set': s}


def long(tier):
    for k, chain in enumerate([['srt', 'webvtt', 'microdvd'], ['dfxp', 'sami'], ['sami', 'srt'], ['webvtt', 'dfxp']]):
        yield {'chain': chain, 'set': {'langs': [['en', {'caps': big.caps(f'a{k}', 130, grid=40000)}]]}}
    yield {'chain': ['sami', 'dfxp'], 'set': {'langs': [[lg, {'caps': big.caps(lg, 60)}] for lg in ('en', 'fr')]}}


FACETS = [
    Facet('api', api_case, run, quick=2600),
    Facet('read', read_case, run, quick=1600),
    Facet('rich', rich_case, run, quick=1200),
    Facet('mid-word', lambda: api_case(mid=True), run, quick=1200),
    Enum('chains', enum, run),
    Enum('long', long, run, hang_s=60),
]
_ = WORDS
