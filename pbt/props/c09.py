"""C09: writing leaves its input alone and gives the same bytes every time."""
from pbt import docs, model, sets, worker, writers
from pbt.core import Enum, Facet, check
from pbt.gen import st
from pbt.worker import outcome

PROPERTY = 'C09'
RULE = ('A case is 1-3 caption sets (API-built with layouts, styles, possibly unbalanced spans, shared '
        'sub-objects or contents that make a writer fail; or read from a generated document), 1-3 writer '
        'objects and a history of 2-6 writes. After every write the set is compared with a deep snapshot '
        'taken before it, and the output (or the exception) with that of a fresh writer object on a freshly '
        'built equal set, and with two other processes that have other hash seeds and did nothing before. '
        'Non-trivial: a set with styles, layouts or several captions.')
ASSUMPTIONS = [
    'an exception counts as an output: its type and text have to be the same each time',
]
SEEDS = (1, 4242)
# the transcript writer works on a stand-in for nltk where that is not installed
NINE = writers.ALL8 + ['transcript']


def build(src, share=None):
    """the caption set of a source; with share, equal sub-objects are one object"""
    if 'doc' in src:
        return docs.read(src['doc'])
    cs = model.mk_set(src['set'])
    if share is None:
        share = src.get('share')
    if share:
        seen = {}

        def one(x):
            return x if x is None else seen.setdefault(repr(x) + type(x).__name__, x)
        for lg in cs.get_languages():
            caps = cs.get_captions(lg)
            caps.layout_info = one(caps.layout_info)
            for c in caps:
                c.layout_info = one(c.layout_info)
                c.style = one(c.style)
                for n in c.nodes:
                    n.layout_info = one(n.layout_info)
                    if isinstance(n.content, dict):
                        n.content = one(n.content)
        if share == 'captions':
            first = cs.get_captions(cs.get_languages()[0])
            for lg in cs.get_languages()[1:]:
                caps = cs.get_captions(lg)
                caps[:] = list(first)
    bad = src.get('bad')
    if bad is not None:
        caps = [c for lg in cs.get_languages() for c in cs.get_captions(lg)]
        c = caps[bad[0] % len(caps)]
        if bad[1] == 'text':
            texts = [n for n in c.nodes if isinstance(n.content, str)]
            texts[-1].content = bad[2]
        elif bad[1] == 'time':
            c.end = bad[2] if bad[2] is not None else float('nan')
        elif bad[1] == 'style':
            c.style = bad[2]
        elif bad[1] == 'layout':
            c.nodes[-1].layout_info = bad[2]
    return cs


def mk_writer(w):
    opts = dict(w.get('opts') or {})
    if w['fmt'] == 'single' and w.get('pos'):
        opts['default_positioning'] = model.mk_layout(w['pos'])
    if w['fmt'] in ('legacy', 'scc', 'microdvd', 'srt', 'transcript'):
        opts = {}
    return writers.make(w['fmt'], opts)


def do_write(writer, cs, w):
    return outcome(lambda: writer.write(cs, **(w.get('kw') or {})))


def pristine_write(src, w):
    return do_write(mk_writer(w), build(src), w)


def run(case, ctx):
    srcs, ws = case['sets'], case['writers']
    try:
        live = [build(s) for s in srcs]
    except Exception as e:  # noqa: B902
        ctx.require(all('doc' not in s for s in srcs), f'reader refused the document: {type(e).__name__}')
        raise
    objs = [mk_writer(w) for w in ws]
    snaps = [model.d_set(cs) for cs in live]
    if not any(s.get('set', {'styles': 1})['styles'] or len(s['set']['langs'][0][1]['caps']) > 1
               for s in srcs if 'set' in s) and all('set' in s for s in srcs):
        ctx.trivial()
    far = set()
    for si, wi in case['ops']:
        si, wi = si % len(srcs), wi % len(ws)
        w = ws[wi]
        got = do_write(objs[wi], live[si], w)
        for k, cs in enumerate(live):
            now = model.d_set(cs)
            check(now == snaps[k], f'writing {w["fmt"]} changed ' + ('its' if k == si else 'another') + ' caption set',
                  before=diff(snaps[k], now), after=diff(now, snaps[k]), ops=case['ops'])
        ctx.label(f'{w["fmt"]} {got[0]}')
        again = do_write(objs[wi], live[si], w)
        check(again == got, 'writing the same set again with the same writer differs', first=got, second=again,
              writer=w)
        fresh = pristine_write(srcs[si], w)
        check(fresh == got, 'a fresh writer differs from one used before', used=got, fresh=fresh, writer=w,
              ops=case['ops'])
        if (si, wi) not in far:
            far.add((si, wi))
            for seed in SEEDS[:1 if len(far) > 1 else 2]:
                other = worker.ask(seed, {'op': 'write', 'src': srcs[si], 'writer': w})['out']
                check(other == got, f'another process (hash seed {seed}) writes something else', here=got,
                      there=other, writer=w)


def diff(a, b, path=''):
    """the parts of a that differ from b"""
    if type(a) is type(b) and isinstance(a, dict):
        out = {k: diff(a[k], b.get(k, '<absent>')) for k in a if k not in b or a[k] != b[k]}
        return out
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return {i: diff(x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y}
    return a


BAD = [['text', None], ['text', 5], ['text', 'x\ud800'], ['time', None], ['time', -1], ['time', 1e300],
       ['style', None], ['layout', 'x']]


@st.composite
def source(draw):
    k = draw(st.integers(0, 9))
    if k < 3:
        return {'doc': draw(docs.doc())}
    web = draw(st.booleans())
    s = {'set': draw(sets.caption_set(web=web, unbalanced=draw(st.booleans()), min_langs=1, max_langs=2))}
    if k in (4, 5):
        s['share'] = draw(st.sampled_from(['parts', 'parts', 'captions']))
    if k == 6:
        s['bad'] = [draw(st.integers(0, 5))] + draw(st.sampled_from(BAD))
    return s


@st.composite
def writer(draw):
    fmt = draw(st.sampled_from(NINE))
    w = {'fmt': fmt, 'opts': draw(sets.wopts(inline=fmt == 'dfxp' or fmt == 'single')), 'kw': {}}
    if fmt == 'single':
        w['pos'] = draw(st.one_of(st.none(), sets.layout()))
    if fmt in ('dfxp', 'legacy', 'single'):
        w['kw'] = draw(st.sampled_from([{}, {}, {'force': 'fr'}, {'force': 'en'}]))
    if fmt == 'webvtt':
        w['kw'] = draw(st.sampled_from([{}, {}, {'lang': 'fr'}, {'lang': 'en'}]))
    return w


@st.composite
def history(draw):
    ns, nw = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    return {'sets': [draw(source()) for _ in range(ns)], 'writers': [draw(writer()) for _ in range(nw)],
            'ops': draw(st.lists(st.tuples(st.integers(0, ns - 1), st.integers(0, nw - 1)).map(list),
                                 min_size=2, max_size=6))}


@st.composite
def one_set(draw):
    """one set through all writers"""
    ws = [draw(writer()) for _ in range(2)]
    for f in draw(st.permutations(NINE)):
        ws.append({'fmt': f, 'opts': {'video_width': 640, 'video_height': 360}, 'kw': {}})
    return {'sets': [draw(source())], 'writers': ws, 'ops': [[0, i] for i in range(len(ws))]}


PX = {'o': [['64', 'px'], ['36', 'px']], 'e': [['320', 'px'], ['36', 'px']], 'p': [['2', 'em'], ['1', 'c'], ['0', 'px'], ['5', 'pt']]}
PC = {'o': [['20', '%'], ['70', '%']], 'e': [['90', '%'], ['40', '%']], 'a': ['right', 'top']}
RICH = [
    {'langs': [['en', {'layout': PC, 'caps': [
        {'s': 1000000, 'e': 2000000, 'style': {'class': 'c1', 'classes': ['c1']}, 'layout': PC, 'nodes': [
            ['t', 'a & b < c', None], ['b', None], ['s', True, {'italics': True, 'color': 'red'}, PC], ['t', '{y} -->', PC],
            ['s', False, {'italics': True, 'color': 'red'}, PC]]},
        {'s': 2000000, 'e': 3000000, 'nodes': [['t', 'one', None]]},
        {'s': 2000000, 'e': 3000000, 'nodes': [['t', 'two', {'a': ['left', 'bottom']}], ['b', None], ['t', '.', None]]}]}],
        ['fr', {'caps': [{'s': 0, 'e': 1000000, 'nodes': [['s', True, {'class': 'c2'}, None], ['t', 'x', None],
                                                          ['s', False, {'class': 'c2'}, None]]}]}]],
     'styles': {'c1': {'bold': True, 'text-align': 'right'}, 'c2': {'class': 'c1', 'italics': True}, 'p': {'color': 'blue'}}},
    {'langs': [['en', {'layout': PX, 'caps': [
        {'s': 1000000, 'e': 2000000, 'layout': PX, 'nodes': [['t', 'a', PX], ['t', 'b', None], ['b', PX], ['t', 'c', PC]]},
        {'s': 1000000, 'e': 2000000, 'style': {'underline': True}, 'nodes': [['t', 'd', None]]}]}]], 'styles': {}},
]


def options(tier):
    """every writer with every combination of its options on fixed sets, once more after another set"""
    for src in ({'set': RICH[0]}, {'set': RICH[1]}, {'set': RICH[0], 'share': 'parts'}, {'set': RICH[1], 'share': 'parts'}):
        for fmt in NINE:
            plain = fmt in ('legacy', 'scc', 'microdvd', 'srt', 'transcript')
            for k in range(1 if plain else 32 if fmt in ('dfxp', 'single') else 16):
                o = {}
                if k & 1:
                    o['relativize'] = False
                if k & 2:
                    o['fit_to_screen'] = False
                if k & 4:
                    o['video_width'] = 640
                if k & 8:
                    o['video_height'] = 360
                if k & 16:
                    o['write_inline_positioning'] = True
                ws = [{'fmt': fmt, 'opts': o, 'kw': kw}
                      for kw in ([{}, {'force': 'fr'}] if fmt in ('dfxp', 'legacy', 'single') else
                                 [{}, {'lang': 'fr'}] if fmt == 'webvtt' else [{}])]
                if fmt == 'single':
                    ws.append(dict(ws[0], pos=PX))
                yield {'sets': [src, {'set': RICH[1 if src['set'] is RICH[0] else 0]}], 'writers': ws,
                       'ops': [[0, i] for i in range(len(ws))] + [[1, 0], [0, 0]]}


FACETS = [
    Enum('options', options, run),
    Facet('history', history, run, quick=1300),
    Facet('all writers', one_set, run, quick=400),
]
