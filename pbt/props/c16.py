"""C16: roll-up and paint-on SCC text is conserved and ordered."""
from itertools import product

from pbt import big, scc608 as S
from pbt.core import Enum, Facet, check, fail
from pbt.gen import st
from pbt.writers import reader

PROPERTY = 'C16'
RULE = ('A case is an SCC document of roll-up and/or paint-on rows. The characters each row '
        'transmits are decoded by an independent decoder (doubled codes, backspace, extended '
        'characters) and must appear once, in order, each row inside one caption; captions '
        'must chain in time. Non-trivial: at least two rows of text.')
ASSUMPTIONS = [
    'spaces are compared as runs (a mid-row code occupies a blank cell, rows are joined by line '
    'breaks); captions with the same start (paint-on rows that are not adjacent) form one step '
    'of the chain',
    'where the displayed memory is erased inside the stream, the text is judged and not when captions end; '
    'no DER; simulate_roll_up off (it repeats rows on purpose)',
]


def transmitted(lines):
    """the rows of characters the words transmit"""
    rows, last, feats = [[]], None, set()
    for _, words in lines:
        for w in words.lower().split():
            if not S.is_code(w):
                last = None
                for b in (int(w[:2], 16), int(w[2:], 16)):
                    if b & 0x7f:
                        rows[-1].append(S.BASIC_OF[b])
                continue
            if w == last:
                last = None
                feats.add('dup')
                continue
            # the second half of PAC TO PAC TO only moves the cursor again
            last = w
            if w == S.EDM:
                feats.add('edm')
            if w in S.PAC_OF or w == S.CR or w == S.RDC or w in S.RU.values():
                if rows[-1]:
                    rows.append([])
            elif w in S.MID_OF:
                rows[-1].append(' ')
                feats.add('mid')
            elif w in S.SPECIAL:
                rows[-1].append(S.SPECIAL[w])
                feats.add('special')
            elif w in S.EXTENDED:
                rows[-1][-1:] = [S.EXTENDED[w]]
                feats.add('extended')
            elif w == S.BS:
                rows[-1][-1:] = []
                feats.add('bs')
    return [''.join(r) for r in rows if ''.join(r).strip()], feats


def run(case, ctx):
    lines = case['lines']
    rows, feats = transmitted(lines)
    ctx.require(rows, 'no text')
    ctx.label(*sorted(feats), *case['modes'])
    if len(rows) < 2:
        ctx.trivial()
    cs = reader('scc').read(S.document(lines))
    caps = cs.get_captions('en-US')
    texts = [c.get_text() for c in caps]
    # characters once and in order
    got = [(ch, i) for i, t in enumerate(texts) for ch in t if not ch.isspace()]
    want = [(ch, j) for j, r in enumerate(rows) for ch in r if not ch.isspace()]
    check([g[0] for g in got] == [w[0] for w in want],
          'characters transmitted and returned differ', transmitted=rows, returned=texts)
    home = {}
    for (_, i), (_, j) in zip(got, want):
        check(home.setdefault(j, i) == i, 'a row is split over captions', row=rows[j],
              returned=texts)
    for j, r in enumerate(rows):
        lines_of = [' '.join(x.split()) for x in texts[home[j]].split('\n')]
        check(any(' '.join(r.split()) in x for x in lines_of), 'a row is not kept together',
              row=r, caption=texts[home[j]])
    # time chain
    steps = []
    for c in caps:
        if steps and abs(steps[-1][0] - c.start) < 1:
            steps[-1][1].append(c.end)
        else:
            steps.append([c.start, [c.end]])
    times = [(c.start, c.end, t) for c, t in zip(caps, texts)]
    for n, (s, ends) in enumerate(steps):
        for e in ends:
            check(e > s, 'a caption does not end after it starts', times=times)
            if n + 1 < len(steps) and 'edm' not in feats:
                check(abs(e - steps[n + 1][0]) <= 1, 'a caption does not end when the next '
                      'one begins', times=times)
    check(all(a[0] < b[0] for a, b in zip(steps, steps[1:])), 'captions not ordered by start',
          times=times)
    if len(caps) > 1:
        ctx.label('captions>1')


# ------------------------------------------------------------------ generator
@st.composite
def roll(draw, e_of, plain, t, drop, edm):
    """roll-up rows -> lines"""
    lines = []
    depth = draw(st.sampled_from([2, 3, 4]))
    base = draw(st.sampled_from([15, 15, 14, 13, 5, 1]))
    style = draw(st.sampled_from(['once', 'each', 'alone']))
    e = e_of()
    if style == 'alone':
        e.code(S.RU[depth])
        lines.append([S.tc(t, drop), e.words])
        t += len(e.words) + draw(st.integers(0, 40))
        e = e_of()
    n = draw(st.integers(1, 8))
    for i in range(n):
        if draw(st.integers(0, 11)) == 0:
            e.code(S.ENM)                  # concerns the pop-on memory only
        if edm and draw(st.integers(0, 3)) == 0:
            e.code(S.EDM)
        if style == 'each' or (style == 'once' and i == 0):
            e.code(S.RU[depth])
        elif draw(st.integers(0, 11)) == 0:
            depth = draw(st.sampled_from([2, 3, 4]))
            e.code(S.RU[depth])
        e.code(S.CR)
        k = draw(st.sampled_from([0, 16, 14, 1, 18, 20]))
        to = draw(st.sampled_from([0, 0, 1, 3]))
        if draw(st.integers(0, 7)) == 0:
            base = draw(st.integers(1, 15))
        r = {'row': base, 'k': k, 'to': to,
             'items': draw(S.row_items(32 - S.pac_col(k) - to, plain, 7,
                                       double_bs=e_of.double))}
        if i and draw(st.integers(0, 7)) == 0:
            for it in r['items']:
                e.item(it)
            e.flush()
        else:
            e.row(r)
        if draw(st.integers(0, 4)) == 0 and i + 1 < n:
            continue                       # the next row comes on the same line
        ws = e.words
        # a row may be cut between two pairs of basic characters
        cut = [j for j in range(2, len(ws)) if not S.is_code(ws[j]) and not S.is_code(ws[j - 1])]
        if cut and draw(st.integers(0, 4)) == 0:
            c = draw(st.sampled_from(cut))
            lines.append([S.tc(t, drop), ws[:c]])
            t += c + draw(st.integers(0, 30))
            ws = ws[c:]
        lines.append([S.tc(t, drop), ws])
        t += len(ws) + draw(st.sampled_from([0, 1, 2, 5, 30, 60, 150]))
        e = e_of()
    if e.words:
        lines.append([S.tc(t, drop), e.words])
        t += len(e.words) + 10
    return lines, t


@st.composite
def paint(draw, e_of, plain, t, drop, edm):
    lines = []
    for i in range(draw(st.integers(1, 5))):
        e = e_of()
        if draw(st.integers(0, 11)) == 0:
            e.code(S.ENM)
        if edm and draw(st.booleans()):
            e.code(S.EDM)
        e.code(S.RDC)
        if draw(st.integers(0, 3)):
            nums = draw(S.rows_set(3))
        else:
            nums = draw(st.lists(st.integers(1, 15), min_size=1, max_size=4))
        for r in nums:
            k = draw(st.one_of(st.sampled_from([0, 16, 14]), st.integers(0, 31)))
            to = draw(st.sampled_from([0, 0, 1, 2, 3]))
            room = 32 - S.pac_col(k) - to
            if nums.count(r) > 1:
                k, to, room = (k if k >= 16 else 16), 0, 7
            e.row({'row': r, 'k': k, 'to': to,
                   'items': draw(S.row_items(room, plain, 6, double_bs=e_of.double))})
        lines.append([S.tc(t, drop), e.words])
        t += len(e.words) + draw(st.sampled_from([0, 1, 2, 5, 30, 60, 150]))
    return lines, t


@st.composite
def program(draw):
    drop = draw(st.booleans())
    double = draw(st.booleans())
    plain = draw(st.integers(0, 2)) == 0
    t = draw(st.one_of(st.integers(1, 300), st.integers(0, 30 * 3600 * 3)))

    def e_of():
        return S.Emit(lambda: double)
    e_of.double = double
    lines, modes = [], []
    edm = draw(st.integers(0, 5)) == 0
    for i in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        mode = draw(st.sampled_from(['roll', 'paint']))
        modes.append(mode)
        ls, t = draw((roll if mode == 'roll' else paint)(e_of, plain, t, drop, edm))
        lines += ls
    return {'lines': [[a, ' '.join(w)] for a, w in lines], 'modes': modes}


def grid(tier):
    """depths x number of rows x doubling x timebase x style x row address"""
    bases = range(1, 16)
    for depth, n, double, drop, style in product((2, 3, 4), range(1, 9), (False, True),
                                                 (False, True), ('once', 'each', 'alone')):
        for gap in (0, 45):
            base = 1 + (depth * 7 + n * 3 + gap) % 15 if tier == 'quick' else None
            for b in ([base] if base else bases):
                yield {'lines': rolls(depth, n, double, drop, style, gap, b), 'modes': ['roll']}
    for n, double, drop, gap in product(range(1, 7), (False, True), (False, True), (0, 45)):
        for arr in ([15], [14, 15], [2, 9], [3, 4, 12], [12, 4, 3], [9, 2]):
            lines, t, c = [], 3, 0
            for i in range(n):
                e = S.Emit(lambda: double)
                e.code(S.RDC)
                for r in arr:
                    e.row({'row': r, 'k': 16, 'to': 0, 'items': label(c)})
                    c += 1
                lines.append([S.tc(t, drop), ' '.join(e.words)])
                t += len(e.words) + gap
            yield {'lines': lines, 'modes': ['paint']}
    for order in product(('roll', 'paint', 'each'), repeat=3):
        for double in (False, True):
            lines, t, c = [], 3, 0
            for m in order:
                for i in range(2):
                    e = S.Emit(lambda: double)
                    if m == 'paint':
                        e.code(S.RDC)
                    else:
                        if m == 'each' or i == 0:
                            e.code(S.RU[3])
                        e.code(S.CR)
                    e.row({'row': 15, 'k': 16, 'to': 0, 'items': label(c)})
                    c += 1
                    lines.append([S.tc(t), ' '.join(e.words)])
                    t += len(e.words) + 20
            yield {'lines': lines, 'modes': list(order)}


def label(c):
    return [['c', 0x41 + c % 26], ['c', 0x61 + (c * 7) % 26], ['c', 0x20],
            ['c', 0x30 + c % 10]]


def rolls(depth, n, double, drop, style, gap, base):
    lines, t = [], 3
    if style == 'alone':
        lines.append([S.tc(t, drop), ' '.join([S.RU[depth]] * (1 + double))])
        t += 2 + gap
    for i in range(n):
        e = S.Emit(lambda: double)
        if style == 'each' or (style == 'once' and i == 0):
            e.code(S.RU[depth])
        e.code(S.CR)
        e.row({'row': base, 'k': 16, 'to': i % 4, 'items': label(i)})
        lines.append([S.tc(t, drop), ' '.join(e.words)])
        t += len(e.words) + gap
    return lines


def long(tier):
    for k in range(4 if tier == 'quick' else 40):
        mode = ['roll', 'paint'][k % 2]
        yield {'lines': big.scc(f'c16{k}', [60, 60, 300, 300][k % 4], mode), 'modes': [mode]}


FACETS = [
    Enum('grid', grid, run),
    Facet('programs', program(), run, quick=7000, thorough=200000),
    Enum('long', long, run, hang_s=60),
]
