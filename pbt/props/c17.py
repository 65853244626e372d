"""C17: SCC output is structurally valid and re-reads to the same words."""
import re
import textwrap
from fractions import Fraction as F

from pbt import big, model, scc608 as S, writers
from pbt.core import Enum, Facet, check
from pbt.gen import st

PROPERTY = 'C17'
RULE = ('A case is a set of one language whose captions have 1-4 lines of 1-80 basic characters with words of up to '
        '40 (and up to 80), and whose starts leave room for the words of the caption at one per frame - from exactly '
        'enough to sparse. The output is checked against the Scenarist grammar, decoded by an own CEA-608 decoder '
        '(parity, rows, columns, breaks, instant of display) and read back with SCCReader. Non-trivial: a line that '
        'must be wrapped, or a caption at most ten frames after the earliest feasible instant.')
ASSUMPTIONS = [
    'captions whose words fill more than 15 rows of 32 columns cannot be displayed and are not generated',
    'a caption takes its text words, two address codes per row and eight control codes; the first caption needs '
    'that much time before its start as well',
    'captions last 0.2 s at least, start before 23:50 h and do not overlap',
    'basic characters are those of CEA-608-E section 6.4.1 (0x20-0x7F)',
]
FRAME = F(1001000000, 30000)            # microseconds
LINE = re.compile(r'(\d\d):([0-5]\d):([0-5]\d)([:;])([0-2]\d)\t([0-9a-f]{4}(?: [0-9a-f]{4})*)')
CHARS = sorted(set(S.BASIC.values()) - {' '})


class Screen(S.Decoder):
    def put(self, ch, attr=False):
        check(self.col < 32, 'a row is longer than 32 columns', row=self.row)
        super().put(ch, attr)
        # super() stays in the last column
        self.col = max(c for r, c in self.hidden.cells if r == self.row) + 1


def layout(lines):
    """the rows that fill lines greedily (an estimate of the room and time a caption takes)"""
    rows = []
    for ln in lines:
        rows += textwrap.wrap(ln, 32, break_on_hyphens=False) or ['']
    return rows


def cost(lines):
    return sum(2 + (len(r) + 1) // 2 for r in layout(lines)) + 8


def words_match(rows, lines, what, **d):
    """rows: the displayed rows; every word of at most 32 characters is in one row"""
    want = [w for ln in lines for w in ln.split()]
    got = [r.split() for r in rows]
    i, part = 0, ''
    for row in got:
        for k, w in enumerate(row):
            check(i < len(want), f'{what}: more words', rows=rows, lines=lines, **d)
            rest = want[i][len(part):]
            if w == rest:
                i, part = i + 1, ''
                continue
            # a word split at the end of its row
            check(rest.startswith(w) and k == len(row) - 1 and len(want[i]) > 32, f'{what}: other words',
                  got=w, want=rest, rows=rows, lines=lines, **d)
            part += w
    check(i == len(want) and not part, f'{what}: words lost', rows=rows, lines=lines, **d)


def decode(out):
    """[(instant in frames, rows)] of what is displayed, and the frames of the lines"""
    check(out.startswith('Scenarist_SCC V1.0\n'), 'no Scenarist header', output=out)
    shown, frames = [], []
    d = Screen()
    free = 0            # the frame in which the channel has sent all words so far
    for ln in out.split('\n')[1:]:
        if not ln:
            continue
        m = LINE.fullmatch(ln)
        check(m, 'not a timecode and words of four hexadecimal digits', line=ln, output=out)
        h, mi, s, ff = (int(m.group(k)) for k in (1, 2, 3, 5))
        t = ((h * 60 + mi) * 60 + s) * 30 + ff
        check(not frames or t >= frames[-1], 'the timecodes decrease', line=ln, output=out)
        frames.append(t)
        d.last = None
        n0 = len(d.shown)
        sent = max(t, free)
        free = sent + len(m.group(6).split(' '))
        for j, w in enumerate(m.group(6).split(' ')):
            for b in (w[:2], w[2:]):
                check(bin(int(b, 16)).count('1') % 2, 'a byte of even parity', word=w, line=ln, output=out)
            check(not S.is_code(w) or w in (S.ENM, S.RCL, S.EDM, S.EOC, S.RDC) or w in S.PAC_OF or w in S.TAB_OF
                  or w in S.MID_OF or w in S.SPECIAL or w in S.EXTENDED, 'an unknown control code', word=w, line=ln)
            d.feed(w, (t + j, m.group(4) == ';', sent + j))
        shown += d.shown[n0:]
    return [(at, [(r, ''.join(c[0] for c in cells)) for r, _, cells in screen])
            for kind, at, screen in shown if kind == 'show'], frames


def instant(at):
    """microseconds of (frame label, drop frame)"""
    return at[0] * F(1000000, 30) * (1 if at[1] else F(1001, 1000))


def run(case, ctx):
    caps = case['caps']
    spec = []
    for c in caps:
        ns = []
        for i, ln in enumerate(c['lines']):
            ns += [['b']] * bool(i)
            cuts = [x for x in c.get('cut', []) if x < len(ln)] if i == 0 else []
            prev = 0
            for x in cuts:
                ns += [['t', ln[prev:x]], ['s', True, {'italics': True}], ['s', False, {'italics': True}]]
                prev = x
            ns.append(['t', ln[prev:]])
        spec.append({'s': c['s'], 'e': c['e'], 'nodes': ns})
    ctx.require(all(len(layout(c['lines'])) <= 15 for c in caps), 'more than 15 rows')
    ctx.require(all(any(ln.strip() for ln in c['lines']) for c in caps), 'no text')
    last = None
    close = False
    for c in caps:
        room = F(c['s']) - (last[0] if last else 0)
        slack = room - cost(c['lines']) * FRAME
        ctx.require(slack >= 0, 'no time to transmit')
        ctx.require(c['e'] - c['s'] >= 200000 and (not last or c['s'] >= last[1]), 'too short or overlapping')
        close = close or slack <= 10 * FRAME
        last = (c['s'], c['e'])
    wrap = any(len(ln) > 32 for c in caps for ln in c['lines'])
    if not close and not wrap:
        ctx.trivial()
    ctx.label('wrapped' if wrap else 'short lines', 'dense' if close else 'sparse', f'{len(caps)} captions')
    out = writers.make('scc').write(model.mk_set({'langs': [['en-US', {'caps': spec}]]}))
    shown, frames = decode(out)
    shown = [x for x in shown if x[1]]
    check(len(shown) == len(caps), 'not one display per caption', got=len(shown), want=len(caps), output=out)
    for c, (at, rows) in zip(caps, shown):
        check(all(1 <= r <= 15 for r, _ in rows), 'a row outside 1-15', rows=rows)
        words_match([t for _, t in sorted(rows)], c['lines'], 'decoded', output=out)
        diff = instant(at) - c['s']
        check(abs(diff) <= 3 * FRAME + F(1, 100), 'the caption is not displayed within three frames of its start',
              frames=float(diff / FRAME), start=c['s'], output=out)
        # a line is not sent before the one before it: one code word per frame
        diff = instant((at[2], at[1])) - c['s']
        check(abs(diff) <= 3 * FRAME + F(1, 100), 'sent one word per frame, the caption is not displayed within three '
              'frames of its start', frames=float(diff / FRAME), start=c['s'], output=out)
    back = writers.reader('scc').read(out)
    got = back.get_captions('en-US')
    check(len(got) == len(caps), 'read back: not one caption per caption', got=[c.get_text() for c in got], output=out)
    for c, g in zip(caps, got):
        words_match(g.get_text().split('\n'), c['lines'], 'read back', output=out)
        check(abs(F(g.start) - c['s']) <= 3 * FRAME + F(1, 100), 'read back: start off by more than three frames',
              frames=float((F(g.start) - c['s']) / FRAME), output=out)
    for a, b in zip(got, got[1:]):
        check(a.start <= b.start, 'read back: starts decrease', output=out)


def run_rough(case, ctx):
    """captions too dense to be transmitted: still well-formed words, non-negative timecodes"""
    spec = [{'s': c['s'], 'e': c['e'], 'nodes': model.lines_nodes(c['lines'])} for c in case['caps']]
    ctx.require(all(len(layout(c['lines'])) <= 15 for c in case['caps']), 'more than 15 rows')
    out = writers.make('scc').write(model.mk_set({'langs': [['en-US', {'caps': spec}]]}))
    check(out.startswith('Scenarist_SCC V1.0\n'), 'no Scenarist header', output=out)
    for ln in out.split('\n')[1:]:
        check(not ln or LINE.fullmatch(ln), 'not a timecode and words of four hexadecimal digits', line=ln, output=out)
        for w in ln.split('\t')[1].split(' ') if ln else ():
            check(all(bin(int(b, 16)).count('1') % 2 for b in (w[:2], w[2:])), 'a byte of even parity', word=w)


# ---------------------------------------------------------------- generators
@st.composite
def word(draw):
    k = draw(st.integers(0, 15))
    n = draw(st.integers(1, 8)) if k < 9 else draw(st.integers(9, 40)) if k < 14 else \
        draw(st.sampled_from([31, 32, 33, 64, 65, 80]))
    if draw(st.integers(0, 3)):
        w = draw(st.text(st.sampled_from('abcdefgh'), min_size=n, max_size=n))
    else:
        w = draw(st.text(st.sampled_from(CHARS), min_size=n, max_size=n))
    if k % 4 == 0 and n > 2:
        i = draw(st.integers(1, n - 1))
        w = w[:i] + draw(st.sampled_from(['-', '--', '.', "'", '/', ',', '-', '!', '?'])) + w[i + 1:]
    return w


@st.composite
def line(draw):
    out = draw(word())
    target = draw(st.sampled_from([1, 10, 20, 31, 32, 33, 50, 80]))
    while len(out) < target:
        out += ' ' * draw(st.sampled_from([1, 1, 1, 1, 1, 2, 5])) + draw(word())
    out = out[:80]
    k = draw(st.integers(0, 15))
    return ' ' + out[:79] if k == 0 else out[:79].rstrip() + ' ' if k == 1 else out


@st.composite
def captions(draw, dense=False):
    caps, last, last_end = [], 0, 0
    base = draw(st.sampled_from([0, 0, 0, 3599 * 10 ** 6, 60 * 10 ** 6, 36000 * 10 ** 6, 85000 * 10 ** 6]))
    for i in range(draw(st.integers(1, 5))):
        lines = draw(st.lists(line(), min_size=1, max_size=4))
        need = -(-cost(lines) * FRAME.numerator // FRAME.denominator)
        slack = draw(st.sampled_from([0, 0, 1, 33366, 33367, 100000, 100099, 100101, 133467, 500000, 2000000,
                                      10000000])) + draw(st.sampled_from([0, 0, 1, 33, 16683]))
        if dense:
            slack = draw(st.integers(-need - last, 0))
            s = max(last_end if draw(st.booleans()) else last, last + need + slack, 0)
        else:
            s = max((last or base) + need + slack, last_end)
        e = s + draw(st.sampled_from([200000, 500000, 1000000, 1234567, 3000000, 10000000]))
        c = {'s': s, 'e': e, 'lines': lines}
        if draw(st.integers(0, 3)) == 0:
            c['cut'] = sorted(draw(st.lists(st.integers(1, 30), max_size=2, unique=True)))
        # the next caption may come as soon as its transmission allows: shorten this one
        caps.append(c)
        last, last_end = s, e if draw(st.booleans()) or dense else s + 200000
        c['e'] = max(last_end, s + 200000)
        last_end = c['e']
    return {'caps': caps}


def chars(tier):
    """each basic character alone, first, last and next to each kind of other"""
    for ch in CHARS:
        for text in (ch, ch * 2, ch * 3, 'a' + ch, ch + 'b', 'ab' + ch, 'a ' + ch + ' b', 'x' * 31 + ch,
                     'x' * 32 + ch, 'x' * 31 + ' ' + ch, ch * 33, 'aa' + ch + 'bb' + ch):
            yield {'caps': [{'s': 10000000, 'e': 12000000, 'lines': [text, 'z']}]}


def wraps(tier):
    """lengths of two or three words around the limit x rows"""
    sizes = [1, 2, 14, 15, 16, 17, 29, 30, 31, 32, 33, 34, 63, 64, 65]
    for a in sizes:
        for b in sizes:
            for sep in (' ', '-', '  ', '   '):
                ln = 'a' * a + sep + 'b' * b
                if len(ln) <= 80:
                    yield {'caps': [{'s': 20000000, 'e': 22000000, 'lines': [ln]}]}
                    yield {'caps': [{'s': 20000000, 'e': 22000000, 'lines': ['x y', ln, 'z' * 32]}]}
    for n in range(1, 81):
        yield {'caps': [{'s': 20000000, 'e': 22000000, 'lines': ['a' * n]}]}
        yield {'caps': [{'s': 20000000, 'e': 22000000, 'lines': [('ab ' * 40)[:n - 1] + 'c'] * 4}]}


def spacing(tier):
    """two captions at every distance around the feasible one, ends around the clear-screen limit"""
    step = 4 if tier == 'quick' else 1
    for n in (1, 20, 32, 60):
        lines = ['a' * min(n, 32), 'b' * (n - 32)][:1 + (n > 32)]
        need = -(-cost(lines) * FRAME.numerator // FRAME.denominator)
        for base in (need, need + 1, 3599999999, 7200000000):
            for extra in range(0, 160000, 4170 * step):
                yield {'caps': [{'s': base, 'e': base + 200000, 'lines': lines},
                                {'s': base + max(need, 200000) + extra, 'e': base + 2 * need + 1000000,
                                 'lines': lines}]}
            for end in range(-5, 6):
                s2 = base + need * 3 + 1000000
                e1 = s2 - need + end * 33367
                yield {'caps': [{'s': base, 'e': max(e1, base + 200000), 'lines': lines},
                                {'s': s2, 'e': s2 + 1000000, 'lines': lines}]}


def long(tier):
    for k in range(3 if tier == 'quick' else 20):
        r, t, caps = big.pick(f'c17{k}'), 3000000, []
        for i in range([60, 120, 250][k % 3]):
            ls = [' '.join(['w%d' % i] + ['x' * r.randrange(1, 9) for _ in range(r.randrange(0, 9))])
                  for _ in range(r.randrange(1, 4))]
            t += -(-cost(ls) * FRAME.numerator // FRAME.denominator) + r.choice([0, 33367, 10 ** 6, 10 ** 8])
            caps.append({'s': t, 'e': t + 200000, 'lines': ls})
            t += 200000 * (i % 2)
        for a, b in zip(caps, caps[1:]):
            a['e'] = max(a['e'], r.choice([a['e'], b['s']]))
        yield {'caps': caps}


FACETS = [
    Enum('chars', chars, run),
    Enum('wraps', wraps, run),
    Enum('spacing', spacing, run),
    Facet('captions', captions(), run, quick=3000, thorough=60000),
    Facet('dense', captions(True), run_rough, quick=400, thorough=5000),
    Enum('long', long, run, hang_s=60),
]
