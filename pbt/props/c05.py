"""C05: SCC pop-on decoding reproduces the CEA-608 screen."""
from itertools import product

from pbt import big, scc608 as S
from pbt.core import Enum, Facet, check, fail
from pbt.gen import st
from pbt.writers import reader

PROPERTY = 'C05'
RULE = ('A case is an SCC document made of pop-on loads (words, single or doubled). The words are '
        'decoded by an independent CEA-608 reference decoder (15x32 memories, own tables) and '
        'each screen it displays is compared with the captions read: characters, lines, groups '
        'of consecutive rows, position, italic characters. Non-trivial: some code other than '
        'a single preamble and basic characters is decoded, or more than one row.')
ASSUMPTIONS = [
    'rows of a load are sent top to bottom, or pairwise non-adjacent in any order; one PAC per row',
    'blank cells at the end of a row are not part of the text; in a row with a mid-row code (which '
    'occupies a blank cell) runs of spaces count as one space, and the first character after a '
    'mid-row code is not . ! ? or , (the suite pins that no space appears there)',
    'backspace is not sent right after a mid-row code; when RCL is sent once, extended characters '
    'and backspaces are sent once too',
]


def expected(lines):
    d = S.Decoder()
    for i, (t, words) in enumerate(lines):
        d.last = None if i else d.last
        for j, w in enumerate(words.split()):
            d.feed(w, (i, j))
    return d


def squeeze(cells):
    """drop repeated and outer blanks of a list of (char, italic)"""
    out = []
    for c in cells:
        if c[0] == ' ' and (not out or out[-1][0] == ' '):
            continue
        out.append(c)
    while out and out[-1][0] == ' ':
        out.pop()
    return out


def rstrip(cells):
    out = list(cells)
    while out and out[-1][0] == ' ':
        out.pop()
    return out


def flat(caption):
    """lines of (char, italic) from nodes; checks the balance of style nodes"""
    from pycaption.base import CaptionNode
    lines, it = [[]], False
    for n in caption.nodes:
        if n.type_ == CaptionNode.TEXT:
            lines[-1] += [(c, it) for c in n.content]
        elif n.type_ == CaptionNode.BREAK:
            lines.append([])
        else:
            check(n.content == {'italics': True}, 'unexpected style node', style=n.content)
            check(n.start != it, 'italic nodes do not alternate on/off',
                  nodes=[repr(x) for x in caption.nodes])
            it = n.start
    check(not it, 'italics left open at the end of the caption',
          nodes=[repr(x) for x in caption.nodes])
    return lines


def place(layout):
    from pycaption.geometry import UnitEnum
    if layout is None or layout.origin is None:
        return None
    x, y = layout.origin.x, layout.origin.y
    check(x.unit == UnitEnum.PERCENT and y.unit == UnitEnum.PERCENT, 'position not in percent',
          layout=repr(layout))
    return x.value, y.value


def compare(lines, content, cs, dec, strict_times=True):
    from pycaption.base import CaptionNode
    exp = []
    for kind, at, scr in dec.shown:
        if kind == 'show' and scr:
            gs = S.groups(scr)
            exp += [(n, g) for g in gs for n in [(at, len(gs))]]
    caps = cs.get_captions('en-US')
    got_text = [c.get_text() for c in caps]
    exp_text = ['\n'.join(''.join(x[0] for x in r[2]) for r in g) for _, g in exp]
    check(len(caps) == len(exp), 'number of captions', expected=exp_text, got=got_text)
    times = {}
    for c, (key, g), et in zip(caps, exp, exp_text):
        got = flat(c)
        check(len(got) == len(g), 'lines of a caption differ from the rows displayed',
              expected=et, got=c.get_text())
        for gl, (r, col, cells) in zip(got, g):
            e = [(x[0], x[1]) for x in cells]
            mid = any(x[2] for x in cells)
            norm = squeeze if mid else rstrip
            ge, gg = norm(e), norm([(' ' if ch == '\u00a0' else ch, i) for ch, i in gl])
            check([x[0] for x in ge] == [x[0] for x in gg], 'characters of a row',
                  expected=''.join(x[0] for x in ge), got=''.join(x[0] for x in gg), row=r)
            check([x for x in ge if x[0] != ' '] == [x for x in gg if x[0] != ' '],
                  'italic characters of a row',
                  expected=''.join('i' if x[1] else '.' for x in ge),
                  got=''.join('i' if x[1] else '.' for x in gg),
                  text=''.join(x[0] for x in ge))
        r, col, _ = g[0]
        want = (10 + 80 * col / 32, 5 + 90 * (r - 1) / 15)
        for lo in [c.layout_info] + [n.layout_info for n in c.nodes
                                     if n.type_ == CaptionNode.TEXT]:
            p = place(lo)
            check(p is not None and all(abs(a - b) < 1e-6 for a, b in zip(p, want)),
                  'position of a caption', row=r, col=col, expected=want, got=p,
                  text=c.get_text())
        t = times.setdefault(key, (c.start, c.end))
        check(t == (c.start, c.end), 'captions of one screen have different times',
              first=t, other=(c.start, c.end))
    check(len(set(t[0] for t in times.values())) == len(times), 'screens share a start time')


def run(case, ctx):
    lines = case['lines']
    dec = expected(lines)
    rows = sum(len(s[2]) for s in dec.shown if s[0] == 'show')
    ctx.label(*sorted(dec.features))
    if any(len(S.groups(s[2])) > 1 for s in dec.shown if s[2]):
        ctx.label('separate-rows')
    if any(len(g) > 1 for s in dec.shown if s[2] for g in S.groups(s[2])):
        ctx.label('adjacent-rows')
    if len(dec.shown) > 1:
        ctx.label('loads>1')
    if dec.features <= {'pac'} and rows <= 1:
        ctx.trivial()
    ctx.require(rows > 0, 'nothing displayed')
    content = S.document(lines, case.get('upper'), case.get('blank', True))
    kw = {'simulate_roll_up': True} if case.get('sim') else {}
    cs = reader('scc').read(content, **kw)
    compare(lines, content, cs, dec)


# ------------------------------------------------------------------ random programs
def emit_load(ld, dbl, rcl_double, enm, edm_rows=(), edm_end=True, order=0):
    """words of one load"""
    e = S.Emit(dbl)
    if enm and order == 0:
        e.code(S.ENM)
    e.code(S.RCL, dbl=rcl_double)
    if enm and order == 1:
        e.code(S.ENM)
    for i, r in enumerate(ld):
        if i in edm_rows:
            e.code(S.EDM)
        e.row(r)
    if edm_end:
        e.code(S.EDM)
    e.code(S.EOC)
    return e.words


@st.composite
def program(draw, max_loads=4, max_rows=4, max_items=9):
    n = draw(st.integers(1, max_loads))
    drop = draw(st.booleans())
    t = draw(st.integers(0, 3600 * 30))
    lines, clean = [], True       # clean: the hidden memory is known to be empty
    for i in range(n):
        mode = draw(st.sampled_from(['all', 'all', 'none', 'mixed']))
        flags = draw(st.lists(st.booleans(), min_size=24, max_size=24)) if mode == 'mixed' else []
        it = iter(flags * 40)

        def dbl():
            return mode == 'all' or (mode == 'mixed' and next(it))
        ld = draw(S.load(max_rows, max_items=max_items, double_bs=mode != 'none'))
        enm = not clean or draw(st.booleans())
        edm_end = draw(st.booleans())
        edm_rows = [1] if draw(st.integers(0, 7)) == 0 else []
        words = emit_load(ld, dbl, mode != 'none', enm, edm_rows, edm_end,
                          draw(st.integers(0, 1)))
        clean = edm_end
        pad = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
        words = ['8080'] * (pad & 1) + words + ['8080'] * (pad >> 1)
        # a load may be spread over several lines, cut between a code and what follows
        cuts = []
        if draw(st.integers(0, 3)) == 0 and len(words) > 6:
            c = draw(st.integers(3, len(words) - 3))
            if words[c] != words[c - 1] and words[c] not in S.TAB_OF \
                    and words[c - 1] not in S.PAC_OF and words[c - 1] not in S.TAB_OF \
                    and words[c - 1] not in S.MID_OF and not (
                        words[c] in S.EXTENDED):
                cuts = [c]
        for part in ([words[:cuts[0]], words[cuts[0]:]] if cuts else [words]):
            lines.append([S.tc(t, drop), ' '.join(part)])
            t += len(part) + draw(st.integers(30, 300))
        if draw(st.integers(0, 2)) == 0:
            w = [S.EDM] * (2 if dbl() else 1)
            if words[-1] != S.EDM:
                lines.append([S.tc(t, drop), ' '.join(w)])
                t += draw(st.integers(30, 100))
    return {'lines': lines, 'upper': draw(st.integers(0, 9)) == 0,
            'blank': draw(st.integers(0, 9)) != 0, 'sim': draw(st.integers(0, 19)) == 0}


# ------------------------------------------------------------------ enumerations
def one(ld, double, start=30, enm=True, edm=True):
    return emit_load(ld, lambda: double, double, enm, edm_end=edm)


def row(r, k, to=0, text='AB'):
    return {'row': r, 'k': k, 'to': to,
            'items': [['c', {v: b for b, v in S.BASIC.items()}[ch]] for ch in text]}


def doc(loads, double, gap=300):
    lines, t = [], 30
    for ld in loads:
        lines.append([S.tc(t), ' '.join(one(ld, double))])
        t += gap
    return {'lines': lines}


def addresses(tier):
    """480 preambles x 4 tab offsets x single/doubled, alone and after an italic row above"""
    for (r, k), _ in sorted(S.PAC.items()):
        for double in (False, True):
            yield doc([[row(r, k, to, 'A' if S.pac_col(k) + to > 30 else 'AB')]
                       for to in range(4)], double)
            # the code as second row of a load that starts in italics
            for up in (1, 3):
                if r - up >= 1:
                    yield doc([[row(r - up, 14), row(r, k, 2 if up == 3 else 0)]], double)


def characters(tier):
    rows = []
    for b in range(0x20, 0x80):
        for items in ([['c', b]], [['c', 0x58], ['c', b]], [['c', b], ['c', 0x58]],
                      [['c', 0x58], ['c', b, True], ['c', 0x58]]):
            if b == 0x20:
                items = items + [['c', 0x58]]
            rows.append(items)
    for w in sorted(S.SPECIAL):
        for items in ([['sp', w], ['c', 0x58]], [['c', 0x58], ['sp', w], ['c', 0x59]],
                      [['c', 0x58], ['sp', w], ['sp', w], ['c', 0x59]]):
            rows.append(items)
    for w in sorted(S.EXTENDED):
        for items in ([['ext', 0x41, w]], [['c', 0x58], ['ext', 0x41, w], ['c', 0x59]],
                      [['ext', 0x41, w], ['ext', 0x42, w]], [['c', 0x58], ['c', 0x59],
                                                            ['ext', 0x41, w], ['c', 0x59]],
                      [['ext', None, w], ['c', 0x59]],
                      [['c', 0x58], ['ext', '9137', w], ['c', 0x59]]):
            rows.append(items)
    for items in rows:
        for double in (False, True):
            yield doc([[{'row': 14, 'k': 0, 'to': 0, 'items': items}],
                       [{'row': 5, 'k': 18, 'to': 1, 'items': [['c', 0x43]]},
                        {'row': 6, 'k': 0, 'to': 0, 'items': items}]], double)


def midrows(tier):
    for a, b in product(range(16), repeat=2):
        for double in (False, True):
            for k in (0, 14):
                items = [['mid', a], ['c', 0x41], ['c', 0x42], ['mid', b], ['c', 0x43]]
                yield doc([[{'row': 14, 'k': k, 'to': 0, 'items': items}]], double)
                yield doc([[{'row': 3, 'k': k, 'to': 0, 'items': items[1:]},
                            {'row': 4, 'k': 16, 'to': 0, 'items': items}]], double)


def pairs(tier):
    """row addresses of two loads and of two rows of one load"""
    cols = [16, 19, 0] if tier == 'quick' else [0, 14, 16, 19, 22, 31]
    for a, b in product(range(1, 16), repeat=2):
        for ka, kb in product(cols, repeat=2):
            for to in ((0,) if tier == 'quick' else (0, 2)):
                for double in (False, True):
                    yield doc([[row(a, ka, to)], [row(b, kb, 0, 'CD')],
                               [row(b, kb, 3, 'EF')]], double)
                    if a < b or abs(a - b) > 1:
                        yield doc([[row(a, ka, 0), row(b, kb, to, 'CD')]], double)


OPS = {'c': [['c', 0x41], ['c', 0x62]], 's': [['c', 0x20]], 'x': [['ext', 0x41, '92b0']],
       'p': [['sp', '9137']], 'b': [['bs']], 'i': [['mid', 14]], 'n': [['mid', 0]],
       'u': [['mid', 1]], 'N': 'next row plain', 'I': 'next row italic',
       'F': 'far row plain', 'L': 'new load', 'G': 'new load, italics, next row'}


def sequences(tier):
    length = 4 if tier == 'quick' else 6
    ops = 'cxbinNIFL' if tier == 'quick' else 'csxpbinuNIFLG'
    if tier != 'quick':
        length = 5
    for n in range(1, length + 1):
        for seq in product(ops, repeat=n):
            c = build(seq)
            if c is not None:
                for double in (False, True):
                    if not double and 'bb' in ''.join(seq):
                        continue
                    yield doc(c, double)


def build(seq):
    r, cur = 3, {'row': 3, 'k': 0, 'to': 0, 'items': []}
    loads, rows = [], [cur]
    cells = 0            # characters since row start / mid-row
    solid = False

    def close():
        return any(i[0] in ('c', 'sp', 'ext') for i in cur['items'])
    for op in seq:
        if op in 'NIFLG':
            cur['items'].append(['c', 0x5a])
            if op in 'LG':
                loads.append(rows)
                rows = []
                r = r + 1 if op == 'G' else 3
            else:
                r += 4 if op == 'F' else 1
            if r > 15:
                return None
            cur = {'row': r, 'k': 14 if op in 'IG' else 18 if op == 'F' else 0, 'to': 0,
                   'items': []}
            rows.append(cur)
            cells = 0
        elif op == 'b':
            # at column 0 a backspace does nothing; elsewhere only after a character
            if not cells and (cur['items'] or cur['k'] == 18):
                return None
            cur['items'].append(['bs'])
            cells = max(0, cells - 1)
        else:
            cur['items'] += OPS[op]
            cells = 0 if op in 'inu' else cells + (2 if op == 'c' else 1)
    cur['items'].append(['c', 0x5a])
    loads.append(rows)
    return loads


def long(tier):
    for k in range(4 if tier == 'quick' else 40):
        yield {'lines': big.scc(f'c05{k}', [60, 150, 150, 400][k % 4])}


FACETS = [
    Enum('addresses', addresses, run),
    Enum('characters', characters, run),
    Enum('midrows', midrows, run),
    Enum('pairs', pairs, run),
    Enum('sequences', sequences, run),
    Facet('programs', program(), run, quick=6000, thorough=200000),
    Enum('long', long, run, hang_s=60),
]
