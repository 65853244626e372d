"""CEA-608 line 21 data: code tables, a reference decoder and generators of SCC programs.

Nothing here is taken from pycaption: the tables are spelled out from CEA-608-E (field 1,
channel 1), every byte carries odd parity, and the decoder keeps two 15x32 memories.
"""
from pbt.gen import st


def par(b):
    return b | 0x80 if bin(b).count('1') % 2 == 0 else b


def word(a, b):
    return '%02x%02x' % (par(a), par(b))


# rows 1..15: first byte and base of the second byte of a preamble address code
PAC_BASE = {1: (0x11, 0x40), 2: (0x11, 0x60), 3: (0x12, 0x40), 4: (0x12, 0x60),
            5: (0x15, 0x40), 6: (0x15, 0x60), 7: (0x16, 0x40), 8: (0x16, 0x60),
            9: (0x17, 0x40), 10: (0x17, 0x60), 11: (0x10, 0x40), 12: (0x13, 0x40),
            13: (0x13, 0x60), 14: (0x14, 0x40), 15: (0x14, 0x60)}
PAC = {(r, k): word(a, b + k) for r, (a, b) in PAC_BASE.items() for k in range(32)}
PAC_OF = {w: rk for rk, w in PAC.items()}


def pac_col(k):
    return 0 if k < 16 else 4 * ((k - 16) // 2)


TAB = {n: word(0x17, 0x20 + n) for n in (1, 2, 3)}
TAB_OF = {w: n for n, w in TAB.items()}
MID = {k: word(0x11, 0x20 + k) for k in range(16)}      # 14, 15: italics (underlined)
MID_OF = {w: k for k, w in MID.items()}
RCL, BS, DER, EDM, CR, ENM, EOC = (word(0x14, b) for b in (0x20, 0x21, 0x24, 0x2c, 0x2d,
                                                         0x2e, 0x2f))
RU = {2: word(0x14, 0x25), 3: word(0x14, 0x26), 4: word(0x14, 0x27)}
RDC = word(0x14, 0x29)

_SUB = {0x2a: 'á', 0x5c: 'é', 0x5e: 'í', 0x5f: 'ó', 0x60: 'ú', 0x7b: 'ç', 0x7c: '÷',
        0x7d: 'Ñ', 0x7e: 'ñ', 0x7f: '█'}
BASIC = {b: _SUB.get(b, chr(b)) for b in range(0x20, 0x80)}
BASIC_OF = {par(b): c for b, c in BASIC.items()}
SPECIAL = {word(0x11, 0x30 + i): c for i, c in enumerate('®°½¿™¢£♪à èâêîôû')}
EXTENDED = {word(0x12, 0x20 + i): c
            for i, c in enumerate("ÁÉÓÚÜü‘¡*’—©℠•“”ÀÂÇÈÊËëÎÏïÔÙùÛ«»")}
EXTENDED.update({word(0x13, 0x20 + i): c
                 for i, c in enumerate("ÃãÍÌìÒòÕõ{}\\^_¦~ÄäÖöß¥¤|ÅåØø┌┐└┘")})
assert len(SPECIAL) == 16 and len(EXTENDED) == 64 and len(PAC_OF) == 480
REV = {c: par(b) for b, c in BASIC.items()}


def is_code(w):
    return 0x10 <= (int(w[:2], 16) & 0x7f) <= 0x1f


class Memory:
    def __init__(self):
        self.cells = {}        # (row, col) -> (char, italic, is attribute cell)
        self.rows = {}         # row -> column it was addressed at (transmission order)


class Decoder:
    """A pop-on decoder fed one word at a time; `shown` collects what EOC displays."""

    def __init__(self):
        self.shown = []
        self.hidden, self.visible = Memory(), Memory()
        self.row, self.col, self.italic = 15, 0, False
        self.last = None
        self.features = set()

    def feed(self, w, at=None):
        w = w.lower()
        if is_code(w):
            if w == self.last:
                self.last = None
                self.features.add('dup')
                return
            self.last = w
            self.code(w, at)
            return
        self.last = None
        for b in (int(w[:2], 16), int(w[2:], 16)):
            if b & 0x7f:
                self.put(BASIC_OF[b])

    def put(self, ch, attr=False):
        self.hidden.cells[self.row, self.col] = (ch, self.italic, attr)
        self.hidden.rows.setdefault(self.row, self.col)
        self.col = min(self.col + 1, 31)

    def back(self):
        if self.col:
            self.col -= 1
            self.hidden.cells.pop((self.row, self.col), None)

    def code(self, w, at):
        if w in PAC_OF:
            self.row, k = PAC_OF[w]
            self.col, self.italic = pac_col(k), k in (14, 15)
            self.hidden.rows.pop(self.row, None)
            self.hidden.rows[self.row] = self.col
            self.features.add('pac-italic' if self.italic else 'pac')
        elif w in TAB_OF:
            self.col = min(31, self.col + TAB_OF[w])
            self.hidden.rows[self.row] = self.col
            self.features.add('tab')
        elif w in MID_OF:
            self.italic = MID_OF[w] >= 14
            self.put(' ', attr=True)
            self.features.add('mid')
        elif w in SPECIAL:
            self.put(SPECIAL[w])
            self.features.add('special')
        elif w in EXTENDED:
            self.back()
            self.put(EXTENDED[w])
            self.features.add('extended')
        elif w == BS:
            self.back()
            self.features.add('bs')
        elif w == ENM:
            self.hidden = Memory()
        elif w == EDM:
            self.shown.append(('clear', at, None))
            self.visible = Memory()
        elif w == EOC:
            self.hidden, self.visible = self.visible, self.hidden
            self.shown.append(('show', at, self.screen()))
        elif w != RCL:
            raise ValueError(w)

    def screen(self):
        """[(row, col, [(char, italic, attr)...])] of the visible rows, transmission order"""
        out = []
        for r, c0 in self.visible.rows.items():
            last = max((c for (rr, c), v in self.visible.cells.items()
                        if rr == r and not v[0].isspace()), default=None)
            if last is None:
                continue
            out.append((r, c0, [self.visible.cells.get((r, c), (' ', False, False))
                                for c in range(c0, last + 1)]))
        return out


def groups(screen):
    """the captions of one screen: runs of consecutive rows"""
    out = []
    for row in screen:
        if out and out[-1][-1][0] + 1 == row[0]:
            out[-1].append(row)
        else:
            out.append([row])
    return out


# ---------------------------------------------------------------- timecodes and files
def tc(frames, drop=False):
    """label of a frame count in 30 fps labels (no dropped numbers)"""
    s, f = divmod(frames, 30)
    return '%02d:%02d:%02d%s%02d' % (s // 3600, s // 60 % 60, s % 60, ';' if drop else ':', f)


def document(lines, upper=False, blank=True):
    out = 'Scenarist_SCC V1.0\n\n'
    for t, words in lines:
        w = ' '.join(words) if not isinstance(words, str) else words
        out += t + '\t' + (w.upper() if upper else w) + ('\n\n' if blank else '\n')
    return out


# ---------------------------------------------------------------- emitting
class Emit:
    """Turns items into words. dbl() says whether the next code is sent twice."""

    def __init__(self, dbl):
        self.dbl = dbl
        self.words = []
        self.half = None
        self.single = None        # the last word if it is a code sent once

    def flush(self):
        if self.half is not None:
            self.words.append('%02x80' % self.half)
            self.half = self.single = None

    def char(self, byte, alone=False):
        b = par(byte)
        if self.half is not None:
            self.words.append('%02x%02x' % (self.half, b))
            self.half = None
        else:
            self.half = b
        self.single = None
        if alone:
            self.flush()

    def code(self, *ws, dbl=None):
        self.flush()
        if self.single is not None and self.single == ws[0]:
            self.words.append(ws[0])       # else this one would count as the second copy
        twice = self.dbl() if dbl is None else dbl
        self.words += list(ws) * (2 if twice else 1)
        self.single = ws[-1] if not twice else (None if len(ws) == 1 else ws[-1])

    def fill(self):
        self.flush()
        self.words.append('8080')
        self.single = None

    def item(self, it):
        op = it[0]
        if op == 'c':
            self.char(it[1], len(it) > 2 and it[2])
        elif op == 'sp':
            self.code(it[1])
        elif op == 'ext':
            if isinstance(it[1], str):           # a special character as the stand-in
                self.code(it[1])
            elif it[1] is not None:
                self.char(it[1])
            self.code(it[2])
        elif op == 'bs':
            self.code(BS)
        elif op == 'mid':
            self.code(MID[it[1]])
        elif op == 'fill':
            self.fill()

    def row(self, r):
        ws = [PAC[r['row'], r['k']]]
        if r.get('to'):
            ws.append(TAB[r['to']])
        self.code(*ws)
        for it in r['items']:
            self.item(it)
        self.flush()


LETTERS = [b for b in range(0x20, 0x80) if BASIC[b].isalnum()]
PUNCT = [0x2e, 0x21, 0x3f, 0x2c]
SOLID = [b for b in range(0x21, 0x80)]


@st.composite
def row_items(draw, room, plain=False, max_items=9, bs=True, double_bs=True):
    """items of one row using at most `room` cells (stand-ins included)"""
    items, used, since = [], 0, 0      # since: characters since the row start or a mid-row code
    after_mid = False
    prev_bs = False
    solid = 0
    for _ in range(draw(st.integers(1, max_items))):
        if used + 1 >= room:
            break
        op = draw(st.sampled_from(
            ['w', 'w', 'w', 'c', 's'] if plain else
            ['w', 'w', 'c', 's', 'sp', 'ext', 'ext', 'mid', 'mid', 'bs', 'fill', 'S']))
        if op == 'w':
            for _ in range(min(draw(st.integers(1, 5)), room - used - 1)):
                items.append(['c', draw(st.sampled_from(LETTERS))])
                used += 1
                since += 1
                solid += 1
            after_mid = prev_bs = False
        elif op == 'c':
            b = draw(st.sampled_from(SOLID))
            if after_mid and b in PUNCT:
                b = 0x41
            items.append(['c', b] + ([True] if draw(st.integers(0, 5)) == 0 else []))
            used, since, solid = used + 1, since + 1, solid + 1
            after_mid = prev_bs = False
        elif op in 'sS':
            if op == 'S' and used + 4 < room:
                items.append(['c', 0x20])
                used, since = used + 1, since + 1
            items.append(['c', 0x20])
            used, since = used + 1, since + 1
            prev_bs = False
        elif op == 'sp':
            items.append(['sp', draw(st.sampled_from(sorted(SPECIAL)))])
            used, since, solid = used + 1, since + 1, solid + 1
            after_mid = prev_bs = False
        elif op == 'ext':
            stand = draw(st.sampled_from(LETTERS + ['9137', '9138', '91b0']))
            items.append(['ext', stand, draw(st.sampled_from(sorted(EXTENDED)))])
            used, since, solid = used + 1, since + 1, solid + 1
            after_mid = prev_bs = False
        elif op == 'mid':
            items.append(['mid', draw(st.sampled_from([14, 14, 0, 0, 15, 1, 2, 12, 13]))])
            used, since = used + 1, 0
            after_mid, prev_bs = True, False
        elif op == 'bs' and bs and since > 0 and (double_bs or not prev_bs):
            items.append(['bs'])
            used, since = used - 1, since - 1
            prev_bs = True
        elif op == 'fill':
            items.append(['fill'])
            prev_bs = False
    items.append(['c', draw(st.sampled_from(LETTERS))])
    return items


@st.composite
def rows_set(draw, max_rows=4):
    """row numbers: increasing (adjacent ones likely), or pairwise non-adjacent in any order"""
    n = draw(st.integers(1, max_rows))
    if draw(st.integers(0, 5)) == 0 and n > 1:
        left, out = list(range(1, 16)), []
        for _ in range(n):
            if not left:
                break
            r = draw(st.sampled_from(left))
            out.append(r)
            left = [x for x in left if abs(x - r) > 1]
        return out
    r = draw(st.integers(1, 15))
    out = [r]
    for _ in range(n - 1):
        r += draw(st.sampled_from([1, 1, 1, 2, 3, 5]))
        if r > 15:
            break
        out.append(r)
    return out


@st.composite
def load(draw, max_rows=4, plain=False, max_items=9, double_bs=True):
    out = []
    for r in draw(rows_set(max_rows)):
        k = draw(st.one_of(st.sampled_from([0, 16, 14]), st.integers(0, 31)))
        if plain and k in (14, 15):
            k = 0
        to = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
        room = 32 - pac_col(k) - to
        if draw(st.integers(0, 5)) == 0:
            room = min(room, 6)
        out.append({'row': r, 'k': k, 'to': to,
                    'items': draw(row_items(room, plain, max_items, double_bs=double_bs))})
    return out
