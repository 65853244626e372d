"""C15: SCC lines longer than 32 characters are never returned silently."""
from itertools import permutations, product

from pbt import big, scc608 as S
from pbt.core import Enum, Facet, check, fail
from pbt.gen import st
from pbt.writers import reader

PROPERTY = 'C15'
RULE = ('A case is an SCC document (pop-on, paint-on, roll-up or a sequence of them) described by '
        'its rows, each of a known length and starting with a unique marker. Reading must raise '
        'the line-length error exactly when some row has more than 32 characters, and its '
        'message must contain every such row and no other. Non-trivial: two captions, or a row '
        'of 31 characters or more.')
ASSUMPTIONS = [
    'exact verdicts: a row does not end in blanks, has no mid-row codes, and is addressed once per '
    'load; in the mixed facet a row counts as too long without the blanks at its ends and without '
    'mid-row codes, and as legal with them',
    'with simulate_roll_up (which repeats rows on purpose) only the lengths of the lines returned '
    'are judged',
]
MARK = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
CODE = {v: k for k, v in S.BASIC.items()}


def build(row, n):
    """items and text of a row: marker, filler of the given kind"""
    length, kind, ind = row['len'], row['kind'], row.get('ind', 0)
    if not length:
        return [], ''
    mark = (MARK[n // 26] + MARK[n % 26] + '.')[:length]
    text, items = '', []

    def ch(c):
        nonlocal text
        items.append(['c', CODE[c]])
        text += c
    for c in mark:
        ch(c)
    while len(text) < length:
        i = len(text)
        if kind == 'words' and i % 6 == 5 and i < length - 1:
            ch(' ')
        elif kind == 'ext' and i % 5 == 4:
            items.append(['ext', 0x41, '9220' if i % 2 else '92b5'])
            text += S.EXTENDED['92b5'] if not i % 2 else S.EXTENDED.get('9220', '')
        elif kind == 'special' and i % 4 == 3:
            items.append(['sp', '9137'])
            text += '♪'
        elif kind == 'bs' and i % 7 == 6:
            ch('q')
            items.append(['bs'])
            text = text[:-1]
            ch('r')
        else:
            ch('abcdefghijk'[i % 11])
    return items, text


def document(case):
    """lines of the document and the texts of the rows"""
    lines, texts, t, n = [], [], 30, 0
    mode0 = None
    for part in case['parts']:
        double = part['double']
        e = S.Emit(lambda: double)
        rows = []
        for r in part['rows']:
            items, text = build(r, n)
            n += 1
            rows.append({'row': r['row'], 'k': r.get('k', 0), 'to': 0, 'items': items})
            texts.append(text)
        if part['mode'] == 'pop':
            e.code(S.ENM)
            e.code(S.RCL)
            for r in rows:
                e.row(r)
            e.code(S.EOC)
            lines.append([S.tc(t), ' '.join(e.words)])
            t += len(e.words) + 60
        elif part['mode'] == 'paint':
            e.code(S.RDC)
            for r in rows:
                e.row(r)
            lines.append([S.tc(t), ' '.join(e.words)])
            t += len(e.words) + 60
        else:
            for i, r in enumerate(rows):
                e = S.Emit(lambda: double)
                if i == 0 and mode0 != 'roll':
                    e.code(S.RU[part['depth']])
                e.code(S.CR)
                e.row(dict(r, row=15))
                lines.append([S.tc(t), ' '.join(e.words)])
                t += len(e.words) + 60
                mode0 = 'roll'
        mode0 = part['mode']
    return lines, texts


def run(case, ctx):
    from pycaption.exceptions import (CaptionLineLengthError, CaptionReadNoCaptions,
                                      CaptionReadTimingError)
    lines, texts = document(case)
    long_ = [x for x in texts if len(x) > 32]
    ctx.label(*sorted({p['mode'] for p in case['parts']}))
    ctx.label('long' if long_ else 'short')
    if any(len(p['rows']) > 1 for p in case['parts'] if p['mode'] != 'roll'):
        ctx.label('several-rows')
    if case.get('offset'):
        ctx.label('same-start-by-offset')
    if len(texts) < 2 and not any(len(x) > 30 for x in texts):
        ctx.trivial()
    content = S.document(lines)
    kw = {'offset': case['offset']} if case.get('offset') else {}
    try:
        cs = reader('scc').read(content, **kw)
    except CaptionLineLengthError as exc:
        msg = str(exc)
        check(long_, 'line-length error although no row is longer than 32', error=msg,
              rows=texts)
        for x in long_:
            check(x in msg, 'an offending line is not named', line=x, length=len(x), error=msg)
        for x in texts:
            if len(x) <= 32 and len(x) > 2:
                check(x not in msg, 'a line of legal length is named', line=x, error=msg)
        return
    except (CaptionReadTimingError, CaptionReadNoCaptions):
        if not long_:
            ctx.require(any(texts) and not case.get('offset'), 'no text or odd times')
        raise
    got = [c.get_text() for c in cs.get_captions('en-US')]
    over = [x for t in got for x in t.split('\n') if len(x) > 32]
    check(not over, 'a line longer than 32 characters was returned', lines=over)
    check(not long_, 'rows longer than 32 characters raised no error', rows=long_, got=got)
    seen = ''.join(''.join(got).split())
    for x in texts:
        check(''.join(x.split()) in seen, 'a row is missing from the captions', row=x, got=got)


LEN = st.one_of(st.integers(0, 40), st.sampled_from([31, 32, 33, 34]))


@st.composite
def part(draw):
    mode = draw(st.sampled_from(['pop', 'pop', 'paint', 'paint', 'roll']))
    if mode == 'roll':
        nums = [15] * draw(st.integers(1, 5))
    else:
        nums = draw(S.rows_set(5))
    rows = [{'row': r, 'len': draw(LEN), 'k': draw(st.sampled_from([0, 16, 18, 1, 22])),
             'kind': draw(st.sampled_from(['plain', 'plain', 'words', 'ext', 'special', 'bs']))}
            for r in nums]
    return {'mode': mode, 'rows': rows, 'double': draw(st.booleans()),
            'depth': draw(st.sampled_from([2, 3, 4]))}


@st.composite
def case(draw):
    c = {'parts': draw(st.lists(part(), min_size=1, max_size=4))}
    for p in c['parts']:
        p['double'] = c['parts'][0]['double']
    if draw(st.integers(0, 4)) == 0:
        c['offset'] = draw(st.sampled_from([1000, 5, 7]))
    return c


def grid(tier):
    """lengths around the limit x row arrangement x mode, every order"""
    lens = [1, 32, 33, 40]
    for mode, double in product(('pop', 'paint', 'roll'), (False, True)):
        for n in (1, 2, 3):
            for ls in product(lens, repeat=n):
                for rows in ([13, 14, 15][:n], [1, 8, 15][:n], [2, 3, 9][:n], [3, 9, 10][:n]):
                    if mode == 'roll' and rows[0] != 1:
                        continue
                    rs = [{'row': r, 'len': x, 'kind': 'plain'} for r, x in zip(rows, ls)]
                    yield {'parts': [{'mode': mode, 'rows': rs, 'double': double, 'depth': 3}]}
        for n in range(0, 41):
            for kind in ('plain', 'words', 'ext', 'special', 'bs'):
                yield {'parts': [{'mode': mode, 'double': double, 'depth': 2,
                                  'rows': [{'row': 15, 'len': n, 'kind': kind}]},
                                 {'mode': 'pop', 'double': double, 'depth': 2,
                                  'rows': [{'row': 4, 'len': 3, 'kind': 'plain'}]}]}
    for ls in set(permutations([5, 20, 33, 36])):
        for cut in (0, 1, 2, 3):
            for off in (None, 100):
                rs = [{'row': r, 'len': x, 'kind': 'words'} for r, x in zip([1, 4, 7, 10], ls)]
                parts = [{'mode': 'pop', 'double': True, 'depth': 2, 'rows': p}
                         for p in (rs[:cut], rs[cut:]) if p]
                yield dict({'parts': parts}, **({'offset': off} if off else {}))


def row_text(items):
    """the characters of a row, and the number of cells it takes at most"""
    out, cells = [], 0
    for it in items:
        if it[0] == 'c':
            out.append(S.BASIC[it[1]])
            cells += 1
        elif it[0] == 'sp':
            out.append(S.SPECIAL[it[1]])
            cells += 1
        elif it[0] == 'ext':
            if it[1] is None and out:
                out.pop()
            out.append(S.EXTENDED[it[2]])
            cells += 2
        elif it[0] == 'bs':
            if out:
                out.pop()
        elif it[0] == 'mid':
            out.append(' ')
            cells += 1
    return ''.join(out), cells


def mixed_document(case):
    lines, rows, t = [], [], 30
    for part in case['parts']:
        e = S.Emit(lambda: case['double'])
        for r in part['rows']:
            rows.append(row_text(r['items']))
        if part['mode'] == 'roll':
            for i, r in enumerate(part['rows']):
                e = S.Emit(lambda: case['double'])
                if i == 0:
                    e.code(S.RU[part['depth']])
                e.code(S.CR)
                e.row(dict(r, row=15))
                lines.append([S.tc(t), ' '.join(e.words)])
                t += len(e.words) + 60
            continue
        if part['mode'] == 'pop':
            e.code(S.ENM)
        e.code(S.RCL if part['mode'] == 'pop' else S.RDC)
        for r in part['rows']:
            e.row(r)
        if part['mode'] == 'pop':
            e.code(S.EOC)
        lines.append([S.tc(t), ' '.join(e.words)])
        t += len(e.words) + 60
        if part.get('clear'):
            e = S.Emit(lambda: case['double'])
            e.code(S.EDM)
            lines.append([S.tc(t), ' '.join(e.words)])
            t += 40
    return lines, rows


def run_mixed(case, ctx):
    from pycaption.exceptions import (CaptionLineLengthError, CaptionReadNoCaptions,
                                      CaptionReadTimingError)
    lines, rows = mixed_document(case)
    squeeze = ''.join
    too_long = [x for x, _ in rows if len(''.join(x.split())) > 32]
    maybe = [x for x, n in rows if n > 32]
    items = [it[0] for p in case['parts'] for r in p['rows'] for it in r['items']]
    ctx.label('too-long' if too_long else 'border' if maybe else 'legal')
    ctx.label(*sorted({p['mode'] for p in case['parts']}))
    if 'mid' in items:
        ctx.label('mid-row')
    if not maybe and not any(len(x) > 28 for x, _ in rows):
        ctx.trivial()
    try:
        cs = reader('scc').read(S.document(lines), simulate_roll_up=case['sim'])
    except CaptionLineLengthError as exc:
        msg = str(exc)
        check(maybe or case['sim'], 'line-length error although no row is longer than 32',
              error=msg, rows=rows)
        if not case['sim']:
            for x in too_long:
                check(squeeze(x.split()) in squeeze(msg.split()),
                      'an offending line is not named', line=x, error=msg)
        return
    except (CaptionReadTimingError, CaptionReadNoCaptions):
        ctx.require(False, 'no text or odd times')
    got = [c.get_text() for c in cs.get_captions('en-US')]
    over = [x for t in got for x in t.split('\n') if len(x) > 32]
    check(not over, 'a line longer than 32 characters was returned', lines=over)
    check(not too_long or case['sim'], 'rows longer than 32 characters raised no error',
          rows=too_long, got=got)


@st.composite
def mixed(draw):
    parts = []
    double = draw(st.booleans())
    for _ in range(draw(st.integers(1, 3))):
        mode = draw(st.sampled_from(['pop', 'pop', 'paint', 'roll']))
        nums = ([15] * draw(st.integers(1, 4)) if mode == 'roll' else draw(S.rows_set(4)))
        rows = []
        for n in nums:
            room = draw(st.sampled_from([33, 34, 45, 50]))
            items = []
            for _ in range(draw(st.sampled_from([0, 0, 0, 1, 3]))):
                items.append(['c', 0x20])
            rest = draw(S.row_items(room - len(items), max_items=8, double_bs=double))
            # most rows are filled up to the limit or just past it
            fill = draw(st.sampled_from([None, 31, 32, 33, 34, 37, 40]))
            items += rest
            if fill:
                while row_text(items)[1] < fill:
                    items.append(['c', 0x61 + len(items) % 26])
            for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
                items.append(['c', 0x20])
            rows.append({'row': n, 'k': draw(st.sampled_from([0, 14, 16, 18, 1])), 'to': 0,
                         'items': items})
        parts.append({'mode': mode, 'rows': rows, 'depth': draw(st.sampled_from([2, 3, 4])),
                      'clear': draw(st.booleans())})
    return {'parts': parts, 'double': double,
            'sim': draw(st.integers(0, 4)) == 0}


def long(tier):
    """one long row among hundreds"""
    for k, (mode, where) in enumerate(product(('pop', 'paint', 'roll'), (0, 1, 100, -1, None))):
        r = big.pick(f'c15{k}')
        parts = [{'mode': mode, 'rows': [{'row': 15, 'len': r.randrange(1, 33), 'kind': 'plain', 'k': 16}],
                  'double': bool(k % 2), 'depth': 2} for i in range(130)]
        if where is not None:
            parts[where]['rows'][0]['len'] = 33
        yield {'parts': parts}


FACETS = [
    Enum('grid', grid, run),
    Facet('streams', case(), run, quick=5000, thorough=150000),
    Facet('mixed', mixed(), run_mixed, quick=4000, thorough=150000),
    Enum('long', long, run, hang_s=60),
]
