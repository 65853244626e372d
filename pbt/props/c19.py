"""C19: timing adjustment and concurrent-caption merging keep all text in order."""
from fractions import Fraction as F
from itertools import product

from pbt import big, model, parsers, sets, writers
from pbt.core import Enum, Facet, check
from pbt.gen import st

PROPERTY = 'C19'
RULE = ('Sets of 1-3 languages with runs of equal time spans at every place and arbitrary nodes are retimed with a '
        'skew and an offset (exact rational model of the times and of what is dropped) or merged (model: maximal '
        'runs, nodes joined by one break), twice and in both orders; the legacy and single-positioning DFXP outputs '
        'are compared with the merged model. Non-trivial: a run of two, or captions both dropped and kept, or a skew '
        'other than 1.')
ASSUMPTIONS = [
    'times are compared with a tolerance of float rounding; a caption whose exact new start is that close to zero '
    'may be dropped or kept',
    'styles and layouts of captions and lists are outside the statement and not compared',
]
TOL = F(1, 10 ** 9)


def view(cs):
    """[(lang, [(start, end, [node dumps])])]"""
    return [(lg, [(c.start, c.end, [model.d_node(n) for n in c.nodes]) for c in cs.get_captions(lg)])
            for lg in cs.get_languages()]


def close(a, b):
    return abs(F(a) - b) <= max(abs(b), 1) * TOL


def num(x):
    return model.num(x)


def check_adjust(before, after, skew, offset):
    check([lg for lg, _ in before] == [lg for lg, _ in after], 'languages changed', got=[lg for lg, _ in after])
    sk, of = F(skew), F(offset)
    dropped = kept = 0
    for (lg, b), (_, a) in zip(before, after):
        left = list(a)
        for s, e, nodes in b:
            s2, e2 = F(s) * sk + of, F(e) * sk + of
            hit = left and close(left[0][0], s2) and close(left[0][1], e2) and left[0][2] == nodes
            # rounding: the size of what was added counts
            slop = max(F(s) * sk, abs(of), 1) * TOL
            if F(s * skew) == F(s) * sk and F(s * skew + offset) == s2:
                slop = 0        # nothing is rounded
            if s2 < -slop:      # must be dropped
                dropped += 1
                check(not hit or left[0][0] >= 0, 'a caption of negative start was kept', start=float(s2), lang=lg)
                continue
            if slop and abs(s2) <= slop and not hit and not (left and left[0][2] == nodes and abs(F(left[0][0]) - s2) <= slop):
                continue
            check(left, 'a caption was dropped', start=float(s2), nodes=nodes, lang=lg)
            gs, ge, gn = left.pop(0)
            check(gn == nodes, 'other nodes or order', got=gn, want=nodes, lang=lg)
            check(abs(F(gs) - s2) <= slop and abs(F(ge) - e2) <= max(F(e) * sk, abs(of), 1) * TOL,
                  'other times', got=[gs, ge], want=[float(s2), float(e2)], lang=lg)
            kept += 1
        check(not left, 'a caption that should have been dropped was kept, or one was added', got=left[:2], lang=lg)
    return dropped, kept


def merged(lists):
    """the model of merging: [(lang, [(s, e, [nodes...])])] with None for the breaks put between"""
    out = []
    for lg, caps in lists:
        row = []
        for s, e, nodes in caps:
            if row and row[-1][0] == s and row[-1][1] == e:
                row[-1][2].extend([None] + nodes)
            else:
                row.append((s, e, list(nodes)))
        out.append((lg, row))
    return out


def check_merge(want, after):
    check([lg for lg, _ in want] == [lg for lg, _ in after], 'languages changed', got=[lg for lg, _ in after])
    for (lg, w), (_, a) in zip(want, after):
        check([c[:2] for c in w] == [c[:2] for c in a], 'other times after merging', got=[c[:2] for c in a],
              want=[c[:2] for c in w], lang=lg)
        for (s, _, nodes), (_, _, got) in zip(w, a):
            check(len(nodes) == len(got) and all(g[0] == 'b' if n is None else g == n for n, g in zip(nodes, got)),
                  'other nodes after merging', start=s, got=got, want=nodes, lang=lg)


def adjust(cs, case):
    kw = {}
    if 'offset' in case:
        kw['offset'] = num(case['offset'])
    if 'skew' in case:
        kw['rate_skew'] = num(case['skew'])
    cs.adjust_caption_timing(**kw)
    return kw.get('rate_skew', 1), kw.get('offset', 0)


def run_adjust(case, ctx):
    cs = model.mk_set(case['set'])
    b = view(cs)
    skew, offset = adjust(cs, case)
    d, k = check_adjust(b, view(cs), skew, offset)
    ctx.label('dropped and kept' if d and k else 'all dropped' if d else 'all kept')
    if skew == 1 and not (d and k):
        ctx.trivial()


def run_merge(case, ctx):
    from pycaption.base import merge_concurrent_captions
    cs = model.mk_set(case['set'])
    b = view(cs)
    want = merged(b)
    runs = [len(m) < len(c) for (_, m), (_, c) in zip(want, b)]
    if not any(runs):
        ctx.trivial()
    ctx.label('merged' if any(runs) else 'nothing to merge')
    after = merge_concurrent_captions(cs)
    a = view(after)
    check_merge(want, a)
    again = view(merge_concurrent_captions(after))
    check(again == a, 'merging again changes the set', first=a, second=again)
    if 'offset' in case or 'skew' in case:
        # retiming the merged set
        skew, offset = adjust(after, case)
        check_adjust(again, view(after), skew, offset)
        check_merge(merged(view(after)), view(merge_concurrent_captions(after)))


def run_writers(case, ctx):
    want = merged(view(model.mk_set(case['set'])))
    ctx.require(any(caps for _, caps in want), 'no captions')
    if not any(n is None for _, caps in want for _, _, ns in caps for n in ns):
        ctx.trivial()
    out = writers.make(case['writer']).write(model.mk_set(case['set']))
    divs = parsers.dfxp(out)['divs']
    check([lg for lg, _ in divs] == [lg for lg, _ in want], 'other languages', output=out)
    for (lg, caps), (_, ps) in zip(want, divs):
        check([(int(s // 1000), int(e // 1000)) for s, e, _ in caps] == [(p['s'] // 1000, p['e'] // 1000) for p in ps],
              'other paragraphs than the merged captions', lang=lg, output=out)
        for (_, _, ns), p in zip(caps, ps):
            text = ''.join('\n' if n is None or n[0] == 'b' else n[1] if n[0] == 't' else '' for n in ns)
            check([''.join(x.split()) for x in text.split('\n')] == [''.join(x.split()) for x in p['lines']],
                  'other lines in a paragraph', want=text, got=p['lines'], output=out)


# ---------------------------------------------------------------- generators
@st.composite
def text_nodes(draw, i, rich):
    k = draw(st.integers(0, 9))     # line breaks at the ends of a caption
    return [['b']] * (k in (7, 9)) + draw(inner_nodes(i, rich)) + [['b']] * (k in (8, 9))


@st.composite
def inner_nodes(draw, i, rich):
    if rich:
        return draw(sets.nodes(st.sampled_from(['a', 'b c', 'd', '']), ['c1'], draw(st.lists(sets.layout(), max_size=2)),
                               hostile=False)) + [['t', f'w{i}']]
    return [['t', f'w{i}']] + [['b'], ['t', 'x']] * draw(st.integers(0, 1))


@st.composite
def the_set(draw, rich=True, max_caps=8, odd=False):
    langs = []
    n = 0
    for lg in draw(st.lists(st.sampled_from(['en', 'fr', 'de-DE']), min_size=1, max_size=3, unique=True)):
        caps, t, span = [], draw(st.sampled_from([0, 0, 1000000, 4999999, 3600000000])), None
        for _ in range(draw(st.integers(0, max_caps))):
            k = draw(st.integers(0, 7))
            if span and k < 3:
                pass                                                # the same again
            elif span and k == 3:
                span = (span[0], span[1] + draw(st.sampled_from([1, 1000, 1000000])))     # the same start
            elif span and k == 4:
                span = (span[0] + draw(st.sampled_from([1, 1000])), max(span[1], span[0] + 2000))   # the same end
            elif caps and k == 5:
                c = draw(st.sampled_from(caps))
                span = (c['s'], c['e'])                             # one of before, perhaps not the last
            else:
                t += draw(st.sampled_from([0, 1, 40000, 1000000, 2500000]))
                span = (t, t + draw(st.sampled_from([0, 1, 40000, 1000000, 3333333])))
                t = span[1]
            c = {'s': span[0], 'e': span[1], 'nodes': draw(text_nodes(n, rich and draw(st.booleans())))}
            if draw(st.integers(0, 3)) == 0:
                c['style'] = {'class': 'c1', 'color': 'red'}
            if draw(st.integers(0, 3)) == 0:
                c['layout'] = draw(sets.layout())
            caps.append(c)
            n += 1
        for c in caps:
            if odd and draw(st.integers(0, 5)) == 0:
                c['s'], c['e'] = c['e'], c['s']
            for k in 'se':
                if draw(st.integers(0, 9)) == 0:
                    c[k] = ['f', repr(float(c[k]))]
        langs.append([lg, {'caps': caps}])
    return {'langs': langs}


@st.composite
def params(draw):
    d = {}
    if draw(st.integers(0, 4)):
        d['skew'] = draw(st.one_of(
            st.sampled_from([1, 2, 3, 4, ['f', '0.5'], ['f', '1.001'], ['f', '0.999'], ['f', '0.04'], ['f', '1.1']]),
            st.floats(0.001, 4).map(lambda x: ['f', repr(x)])))
    if draw(st.integers(0, 4)):
        d['offset'] = draw(st.one_of(
            st.sampled_from([0, -1, 1, -1000000, -1000001, -2000000, 2500000, -3333333, -10 ** 10, ['f', '-0.5'],
                             ['f', '0.25']]), st.integers(-12000000, 12000000),
            st.floats(-5e6, 5e6).map(lambda x: ['f', repr(x)])))
    return d


@st.composite
def adjust_case(draw):
    c = {'set': draw(the_set(odd=True)), **draw(params())}
    caps = [x for _, lst in c['set']['langs'] for x in lst['caps']]
    if caps and draw(st.integers(0, 2)) == 0:
        s = num(draw(st.sampled_from(caps))['s'])
        if draw(st.booleans()):
            c.pop('skew', None)
        if 'skew' not in c or isinstance(c['skew'], int):
            c['offset'] = -int(s) * c.get('skew', 1) + draw(st.sampled_from([0, 0, -1, 1]))
    return c


@st.composite
def merge_case(draw):
    return {'set': draw(the_set(odd=True)), **(draw(params()) if draw(st.booleans()) else {})}


@st.composite
def writer_case(draw):
    return {'set': draw(the_set(False, 6)), 'writer': draw(st.sampled_from(['legacy', 'single']))}


SPANS = [(0, 1000000), (1000000, 2000000), (0, 2000000)]


def grid(tier):
    """every list of up to six (seven) captions over three time spans"""
    for n in range(0, 7 if tier == 'quick' else 8):
        for xs in product(range(3), repeat=n):
            if n > 1 and len(set(xs)) > 2 and tier == 'quick' and n > 5:
                continue
            yield {'set': {'langs': [['en', {'caps': [{'s': SPANS[x][0], 'e': SPANS[x][1], 'nodes': [['t', f'w{i}']]}
                                                     for i, x in enumerate(xs)]}],
                                     ['fr', {'caps': [{'s': 5, 'e': 6, 'nodes': [['t', 'z']]}] * (n % 3)}]]}}


def shifts(tier):
    """starts 0..4 s x offsets around them x skews"""
    for skew in (1, 2, 4, ['f', '0.5'], ['f', '0.25'], ['f', '1.5'], ['f', '0.1'], ['f', '3.7']):
        for off in list(range(-5000000, 2000001, 500000)) + [-1, 1, -999999, -1000001, -10 ** 9]:
            for starts in ([], [0], [1000000], [0, 1000000, 2000000, 3000000], [0, 0, 1, 2000000],
                           [2000000, 1000000, 0, 3000000]):
                for length in (700000, 0):
                    yield {'skew': skew, 'offset': off, 'set': {'langs': [
                        ['en', {'caps': [{'s': s, 'e': s + length, 'nodes': [['t', f'w{i}']]}
                                         for i, s in enumerate(starts)]}],
                        ['fr', {'caps': [{'s': 1500000, 'e': 1600000, 'nodes': [['t', 'y'], ['b'], ['t', 'z']]}]}]]}}


def long(tier):
    for k in range(3 if tier == 'quick' else 30):
        caps, r = [], big.pick(f'runs{k}')
        for c in big.caps(f'c19{k}', [40, 150, 500][k % 3]):
            for j in range(r.choice([1, 1, 1, 2, 3, 12, 45])):
                caps.append(dict(c, nodes=[['t', f'w{len(caps)}']]))
        langs = [['en', {'caps': caps}], ['fr', {'caps': caps[::3]}]]
        yield {'set': {'langs': langs}}
        yield {'set': {'langs': langs}, 'offset': -caps[len(caps) // 2]['s'], 'skew': 1}
        yield {'set': {'langs': langs}, 'offset': 1, 'skew': ['f', '0.999']}


FACETS = [
    Enum('runs', grid, run_merge),
    Enum('shifts', shifts, run_adjust),
    Facet('adjust', adjust_case(), run_adjust, quick=4000, thorough=80000),
    Facet('merge', merge_case(), run_merge, quick=4000, thorough=80000),
    Facet('writers', writer_case(), run_writers, quick=500, thorough=10000),
    Enum('long', long, run_merge, hang_s=60),
]
