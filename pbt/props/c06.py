"""C06: SCC captions appear and disappear at the frames their commands are sent."""
from fractions import Fraction
from itertools import product

from pbt import big, scc608 as S
from pbt.core import Enum, Facet, check, fail
from pbt.gen import st
from pbt.props.c05 import expected, row
from pbt.writers import reader

PROPERTY = 'C06'
RULE = ('A case is a pop-on SCC document and an offset. An independent decoder notes the frame of '
        'every EOC and EDM; starts and ends are computed from them in exact rational arithmetic, '
        'then compared with the captions read. Non-trivial: at least two screens or a clear, or '
        'a non-zero offset.')
ASSUMPTIONS = [
    'lines do not overlap: a line starts after the words of the previous one were sent',
    'a gap of exactly five frames may be closed or not',
    'a screen shown for less than 0.05 s which the gap rule then lengthens may be rejected or '
    'returned with the longer duration',
    'the offset does not lie past the end of a whole caption (the statement floors starts only)',
]
FRAME = Fraction(1001000000, 30000)


def parse_tc(t):
    h, m, s, f = (int(x) for x in t.replace(';', ':').split(':'))
    return (h * 3600 + m * 60 + s) * 30 + f


def instant(frames, drop, offset):
    x = Fraction(frames * 10 ** 6, 30)
    if not drop:
        x = x * 1001 / 1000
    return max(Fraction(0), x - Fraction(offset) * 10 ** 6)


def timeline(case):
    """[(start frame, end frame or None, groups)] of the screens shown"""
    lines = case['lines']
    dec = expected(lines)
    base = [parse_tc(t) for t, _ in lines]
    out, cur = [], None
    for kind, at, scr in dec.shown:
        fr = base[at[0]] + at[1]
        if cur is not None:
            cur[1] = fr
            cur = None
        if kind == 'show' and scr:
            cur = [fr, None, S.groups(scr)]
            out.append(cur)
    return out, dec


def text_of(g):
    return [' '.join(''.join(c[0] for c in r[2]).split()) for r in g]


def run(case, ctx):
    from pycaption.exceptions import CaptionReadTimingError
    lines, offset = case['lines'], case.get('offset', 0)
    drop = ';' in lines[0][0]
    tl, dec = timeline(case)
    ctx.require(tl, 'nothing displayed')
    exp, must, may = [], False, False
    for i, (s, e, gs) in enumerate(tl):
        a = instant(s, drop, offset)
        ends = []
        if e is None:
            ends = [a + 4 * 10 ** 6]
            ctx.label('never-cleared')
        else:
            b = instant(e, drop, offset)
            ctx.require(b > 1, 'the offset lies past a whole caption')
            ends = [b]
            if i + 1 < len(tl):
                n = tl[i + 1][0]
                nb = instant(n, drop, offset)
                if n == e:
                    ctx.label('end=next-start')
                elif n - e < 5:
                    ends = [nb]
                    ctx.label('gap-closed')
                    if b - a < 50000 <= nb - a:
                        may = True
                elif n - e == 5:
                    ends = [b, nb]
                    ctx.label('gap=5')
                else:
                    ctx.label('gap-kept' if n - e < 12 else 'gap-long')
            # a microsecond either way, and nothing at all, is left to rounding
            if all(1 < x - a < 49999 for x in ends):
                must = True
            elif any(0 < x - a < 50001 for x in ends):
                may = True
        exp.append((a, ends, gs))
    if offset:
        ctx.label('offset')
        if any(x[0] == 0 for x in exp):
            ctx.label('floored')
    ctx.label('drop' if drop else 'non-drop')
    if len(dec.shown) < 2 and not offset:
        ctx.trivial()
    content = S.document(lines)
    kw = {'offset': offset} if 'offset' in case else {}
    try:
        cs = reader('scc').read(content, **kw)
    except CaptionReadTimingError as exc:
        check(must or may, 'rejected with a timing error although every screen lasts 0.05 s',
              error=str(exc), expected=show(exp))
        ctx.label('flash-rejected')
        return
    caps = cs.get_captions('en-US')
    got = [(float(c.start), float(c.end), c.get_text()) for c in caps]
    check(not must, 'a screen shown under 0.05 s was returned', got=got, expected=show(exp))
    flat = [(a, e, text_of(g)) for a, e, gs in exp for g in gs]
    check(len(flat) == len(got), 'number of captions', expected=show(exp), got=got)
    for (a, ends, txt), (s, e, t) in zip(flat, got):
        check([' '.join(x.split()) for x in t.split('\n')] == txt, 'captions out of order',
              expected=txt, got=t)
        check(abs(Fraction(s) - a) <= 1, 'start of a caption', expected=float(a), got=s,
              diff=float(Fraction(s) - a), text=t, all=got)
        check(any(abs(Fraction(e) - x) <= 1 for x in ends), 'end of a caption',
              expected=[float(x) for x in ends], got=e, text=t, all=got)
        check(s <= e, 'start after end', got=got)


def show(exp):
    return [(float(a), [float(x) for x in e], [text_of(g) for g in gs]) for a, e, gs in exp]


# ------------------------------------------------------------------ generator
def words_of(ld, double, rcl, edm, enm, fills=0):
    """edm: None, 'first', 'last', or the index of the row before which it is sent"""
    e = S.Emit(lambda: double)
    if enm:
        e.code(S.ENM)
    if edm == 'first':
        e.code(S.EDM)
    if rcl:
        e.code(S.RCL)
    for i, r in enumerate(ld):
        if edm == i:
            e.code(S.EDM)
        e.row(r)
    for _ in range(fills):
        e.fill()
    if edm == 'last':
        e.code(S.EDM)
    if edm == 'nop-last':
        e.code(S.EDM)
        e.fill()
    e.code(S.EOC)
    return e.words


GAP = st.one_of(st.integers(0, 12), st.integers(0, 300),
                st.sampled_from([0, 1, 2, 3, 4, 5, 6, 20, 1800, 107892]))
SMALL = st.builds(lambda r, k, t: [row(r, k, 0, t)], st.integers(1, 15),
                  st.sampled_from([0, 16, 20]), st.sampled_from(['A', 'BC', 'DEF', 'GH IJ']))


@st.composite
def program(draw):
    drop = draw(st.booleans())
    t = draw(st.one_of(st.integers(0, 300), st.integers(0, 30 * 3600 * 3),
                       st.sampled_from([0, 1799, 1800, 107999, 108000])))
    if draw(st.integers(0, 9)) == 0:
        t += 30 * 3600 * draw(st.integers(1, 20))
    doubled = draw(st.sampled_from([True, True, False, None]))
    lines, prev, first_eoc = [], None, None
    clean = True
    for i in range(draw(st.integers(1, 6))):
        double = draw(st.booleans()) if doubled is None else doubled
        ld = draw(st.one_of(SMALL, SMALL, S.load(3, plain=True, max_items=3)))
        edm = draw(st.sampled_from([None, None, 'first', 'last', 'nop-last', 0, 1]))
        if edm == 1 and len(ld) < 2:
            edm = 'last'
        ws = words_of(ld, double, True, edm, not clean or draw(st.booleans()),
                      draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 75, 170])))
        k = draw(st.sampled_from([0, 0, 0, 1]))
        lines.append([S.tc(t, drop), ' '.join(ws)])
        t += len(ws) + draw(GAP)
        prev = ws[-1], ws[-2]
        clean = edm is not None
        if draw(st.integers(0, 1)):
            ws = [S.EDM] * (2 if double else 1)
            lines.append([S.tc(t, drop), ' '.join(ws)])
            t += len(ws) + draw(GAP)
        elif k and clean and double and i:
            # the other memory is empty: an EOC alone clears the screen
            lines.append([S.tc(t, drop), S.EOC + ' ' + S.EOC])
            t += 2 + draw(GAP)
            clean = False
    case = {'lines': lines}
    o = draw(st.integers(0, 5))
    if o == 0:
        case['offset'] = draw(st.sampled_from([0, 1, 2.5, 0.1, -1, -3600, 0.001, 1.001]))
    elif o == 1:
        case['offset'] = parse_tc(lines[0][0]) // 30
    elif o == 2:
        # inside the first caption, or shortly before it
        tl, _ = timeline(case)
        if tl:
            s, e, _ = tl[0]
            e = e if e is not None else s + 120
            f = draw(st.integers(max(0, s - 60), max(s, e)))
            case['offset'] = draw(st.sampled_from([f / 30, f // 30, round(f / 30, 3)]))
    return case


def grid(tier):
    """two screens: every way to clear the first x gaps x doubling x timebase"""
    base = [30, 107990] if tier == 'quick' else [0, 29, 30, 1799, 107990, 30 * 86400 - 600]
    for double, drop, kind, t0 in product((False, True), (False, True),
                                          ('none', 'first', 'row', 'last', 'nop-last', 'line',
                                           'line+last'), base):
        for hold in ((0, 1, 2, 3, 9) if kind.startswith('line') else (0, 40)):
            for gap in range(0, 9):
                ld = [row(13, 0, 0, 'A'), row(14, 0, 0, 'B'), row(3, 16, 0, 'C')]
                a = words_of(ld, double, True, None, True)
                lines = [[S.tc(t0, drop), ' '.join(a)]]
                t = t0 + len(a) + hold
                if kind.startswith('line'):
                    w = [S.EDM] * (1 + double)
                    lines.append([S.tc(t, drop), ' '.join(w)])
                    t += len(w)
                    fills, tt = (0, gap)
                else:
                    fills, tt = gap, 0
                inline = {'none': None, 'first': 'first', 'row': 0, 'last': 'last',
                          'nop-last': 'nop-last', 'line': None, 'line+last': 'last'}[kind]
                b = words_of([row(14, 0, 0, 'D')], double, True, inline, kind != 'first',
                             fills)
                lines.append([S.tc(t + tt, drop), ' '.join(b)])
                yield {'lines': lines}


def gaps(tier):
    """short single-coded loads: the frames between the clear and the next EOC, one by one"""
    for drop, n, hold, t0, multi in product((False, True), range(0, 9), (0, 1, 2, 3, 30),
                                            (0, 17, 1799, 53946000 // 30),
                                            (False, True)):
        ld = [row(1, 0, 0, 'A')] + ([row(9, 0, 0, 'B')] if multi else [])
        a = words_of(ld, False, True, None, True)
        b = ['8080'] * n
        pre = [S.ENM, S.RCL, S.PAC[14, 0], 'c180']
        for cut in range(0, 5):
            # EDM sent after `cut` words of the next load
            w = pre[:cut] + [S.EDM] + pre[cut:] + b + [S.EOC]
            lines = [[S.tc(t0, drop), ' '.join(a)],
                     [S.tc(t0 + len(a) + hold, drop), ' '.join(w)]]
            yield {'lines': lines}
            if n == 3 and cut < 2:
                for off in (t0 // 30, (t0 + len(a) - 1) / 30, (t0 + len(a)) // 30, 0.5, -2):
                    yield {'lines': lines, 'offset': off}


def long(tier):
    for k in range(4 if tier == 'quick' else 40):
        yield {'lines': big.scc(f'c06{k}', [60, 200, 200, 500][k % 4])}


FACETS = [
    Enum('grid', grid, run),
    Enum('gaps', gaps, run),
    Facet('programs', program(), run, quick=9000, thorough=300000),
    Enum('long', long, run, hang_s=60),
]
