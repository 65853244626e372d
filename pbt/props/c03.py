"""C03: written text survives a conformant parser."""
from pbt import big, parsers
from pbt.core import Enum, Facet, check
from pbt.gen import META, hostile_line, st
from pbt.model import mk_set
from pbt.writers import make

PROPERTY = 'C03'
RULE = ('A case is a writer and 1-3 captions whose lines are built from printable Unicode and '
        'format metacharacters, with empty lines (consecutive, leading, trailing breaks, empty '
        'text nodes); the output is parsed by the independent parser of the format. '
        'Non-trivial: some line contains a character outside [A-Za-z0-9 ] or an empty line.')
ASSUMPTIONS = [
    'in the split-nodes facet lines are split over several nodes and spans; SAMI is compared without '
    'whitespace there, because its blank after each node and span is pinned by the existing suite '
    '(known finding C08-sami-blank-at-span)',
    'printable = str.isprintable (no control, format, private-use or separator characters '
    'except U+0020)',
]
WRITERS = ['srt', 'webvtt', 'dfxp', 'single', 'legacy', 'sami', 'microdvd']


@st.composite
def case(draw):
    w = draw(st.sampled_from(WRITERS))
    line = hostile_line(exclude=('|',) if w == 'microdvd' else ())
    caps = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        lines = draw(st.lists(line, min_size=1, max_size=4))
        nodes = []
        gap = st.sampled_from([1, 1, 1, 1, 2, 3])
        lead = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
        nodes += [['b']] * lead
        for i, ln in enumerate(lines):
            if i:
                g = draw(gap)
                for k in range(g):
                    nodes.append(['b'])
                    if k < g - 1 and draw(st.integers(0, 3)) == 0:
                        nodes.append(['t', draw(st.sampled_from(['', ' ']))])
            pad = draw(st.sampled_from(['', '', '', ' ', '  ']))
            nodes.append(['t', pad + ln + draw(st.sampled_from(['', '', '', ' ']))])
        nodes += [['b']] * draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
        caps.append(nodes)
    return {'w': w, 'caps': caps}


STYLES = [{'italics': True}, {'bold': True}, {'underline': True}, {'color': 'red'}]


@st.composite
def split_case(draw):
    w = draw(st.sampled_from(WRITERS))
    line = hostile_line(exclude=('|',) if w == 'microdvd' else ())
    caps = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        nodes = []
        for i, ln in enumerate(draw(st.lists(line, min_size=1, max_size=3))):
            nodes += [['b']] * draw(st.sampled_from([1, 1, 2, 3] if i else [0, 0, 0, 1]))
            cuts = sorted(draw(st.lists(st.integers(0, len(ln)), max_size=3)))
            parts = [ln[a:b] for a, b in zip([0] + cuts, cuts + [len(ln)])]
            for p in parts:
                if not p:
                    continue
                sty = draw(st.sampled_from([None, None] + STYLES))
                if sty:
                    nodes += [['s', True, sty], ['t', p], ['s', False, sty]]
                else:
                    nodes.append(['t', p])
        if draw(st.booleans()):     # spans over several nodes, breaks, or nothing at all
            nodes = [n for n in nodes if n[0] != 's'] + draw(st.sampled_from([[], [], [['b']]]))
            k = 2 * draw(st.integers(1, 3))
            at = sorted(draw(st.lists(st.integers(0, len(nodes)), min_size=k, max_size=k)))
            for i in reversed(range(0, k, 2)):
                sty = draw(st.sampled_from(STYLES))
                nodes.insert(at[i + 1], ['s', False, sty])
                nodes.insert(at[i], ['s', True, sty])
        caps.append(nodes)
    return {'w': w, 'caps': caps, 'split': True}


def expected(nodes):
    s = ''
    for n in nodes:
        s += '\n' if n[0] == 'b' else n[1] if n[0] == 't' else ''
    return [x.strip() for x in s.split('\n') if x.strip()]


def written(w, doc):
    """[(start, [lines])]"""
    if w == 'srt':
        return [(s, ls) for s, _, ls in parsers.srt(doc)]
    if w == 'webvtt':
        out = []
        for c in parsers.vtt(doc):
            check(not c['problems'], 'WebVTT cue text is not well-formed', problems=c['problems'],
                  document=doc)
            out.append((c['s'], c['lines']))
        return out
    if w in ('dfxp', 'single', 'legacy'):
        d = parsers.dfxp(doc)
        check(len(d['divs']) == 1, 'not one div', document=doc)
        return [(p['s'], p['lines']) for p in d['divs'][0][1]]
    if w == 'microdvd':
        return [(s * 40000, ls) for s, _, ls in parsers.mdvd(doc)]
    d = parsers.sami(doc)
    out = []
    for s in d['syncs']:
        check(len(s['ps']) == 1, 'sync without exactly one paragraph', document=doc)
        out.append((s['start'] * 1000, s['ps'][0]['lines']))
    return out


def run(case, ctx):
    w = case['w']
    spec = {'langs': [['en-US', {'caps': [
        {'s': (3 * i + 1) * 10 ** 6, 'e': (3 * i + 3) * 10 ** 6, 'nodes': nodes}
        for i, nodes in enumerate(case['caps'])]}]]}
    ctx.label(w)
    doc = make(w).write(mk_set(spec))
    got = written(w, doc)
    text = ''.join(n[1] for nodes in case['caps'] for n in nodes if n[0] == 't')
    if text.replace(' ', '').isalnum() and text.isascii():
        ctx.trivial()
    if '-->' in text:
        ctx.label('arrow')
    if any(a == b == ['b'] for nodes in case['caps'] for a, b in zip(nodes, nodes[1:])):
        ctx.label('empty line')

    def norm(ls):
        ls = [y.replace('\xa0', ' ') for y in ls]
        if case.get('split'):
            ls = [('' if w == 'sami' else ' ').join(x.split()) for x in ls]
        return [x.strip() for x in ls if x.strip()]
    got_caps = [(t, norm(ls)) for t, ls in got]
    if w == 'sami':       # blank paragraphs end a cue
        check(all(bool(ls) == (i % 2 == 0) for i, (_, ls) in enumerate(got_caps)),
              'cue or blank paragraph missing', got=got, document=doc)
        got_caps = [x for x in got_caps if x[1]]
    exp = [((3 * i + 1) * 10 ** 6, norm(expected(nodes))) for i, nodes in enumerate(case['caps'])]
    check(len(got_caps) == len(exp), f'{len(got_caps)} cues written for {len(exp)} captions',
          got=got_caps, expected=exp, document=doc)
    for g, e in zip(got_caps, exp):
        check(g[0] == e[0], 'cue at the wrong time', got=g, expected=e, document=doc)
        check(g[1] == e[1], 'written lines differ', got=g[1], expected=e[1], document=doc)


def enum(tier):
    """every metacharacter fragment alone, doubled, glued to each other one, around blanks"""
    toks = META
    for w in WRITERS:
        for a in toks:
            lines = [[a], [a + ' x'], ['x ' + a], [a + a], ['x' + a + 'y'], [a, a], ['x', a, 'y']]
            lines += [[a + b] for b in toks]
            if w == 'microdvd':
                lines = [ls for ls in lines if not any('|' in x for x in ls)]
            for i in range(0, len(lines), 30):
                yield {'w': w, 'caps': [[n for j, x in enumerate(ls) for n in (
                    [['b']] if j else []) + [['t', x]]] for ls in lines[i:i + 30]]}
        chars = [chr(i) for i in range(0x20, 0x3000 if tier == 'quick' else 0x1fbff)
                 if chr(i).isprintable() and chr(i) != ' ' and not (w == 'microdvd' and i == 0x7c)]
        for i in range(0, len(chars), 400):
            yield {'w': w, 'caps': [[['t', ''.join('a' + c for c in chars[i:i + 400][j:j + 40])]]
                                    for j in range(0, 400, 40) if chars[i:i + 400][j:j + 40]]}


def long(tier):
    for k, w in enumerate(['srt', 'webvtt', 'dfxp', 'sami', 'microdvd', 'single', 'legacy']):
        r = big.pick(w)
        yield {'w': w, 'caps': [[['t', r.choice(['a & b', 'x', '1', 'c < d', 'q > r', "it's"]) + f' {i}']]
                                + ([['b'], ['t', f'second {i}']] if i % 5 == 0 else [])
                                for i in range(1100 if w in ('srt', 'webvtt', 'microdvd') else 220)]}


FACETS = [
    Facet('lines', case, run, 9000),
    Facet('split-nodes', split_case, run, 6000),
    Enum('fragments', enum, run),
    Enum('long', long, run, hang_s=60),
]
