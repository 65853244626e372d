"""C01: reading preserves every cue's start and end instant."""
from fractions import Fraction
from math import floor

from pbt.core import Enum, Facet, check, fail
from pbt.gen import st, words
from pbt import big, serial
from pbt.model import cap_lines, norm_lines

PROPERTY = 'C01'
RULE = ('A case is one document of one text format: abstract cues (instant spellings, text '
        'lines, empty cues, separators, blocks) written by an independent serialiser, plus '
        'reader options. Non-trivial: at least one non-empty cue whose start is not 0, so '
        'that the comparison of exact instants can fail.')
ASSUMPTIONS = [
    'DFXP frame fields and f offsets count 30 frames per second (no ttp: parameters), the t '
    'metric is refused by documented design and not generated',
    'SRT fractions are three digits or absent; MicroDVD frame rate header is {0}{0}fps',
    'WebVTT time shifts keep all instants non-negative',
]

TEXT = st.lists(st.one_of(words(1, 3), st.sampled_from(['42', '1', 'a: b', '00:00:01,000'])),
                min_size=1, max_size=3)
TEXT_OR_EMPTY = st.one_of(TEXT, TEXT, TEXT, TEXT, st.just([]))
EOL = st.sampled_from(['\n', '\n', '\n', '\r\n', '\r'])


def _num(lo, hi):
    return st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, lo + 1]))


HOURS = st.one_of(st.just(0), st.integers(0, 23), st.integers(24, 99), st.integers(100, 999))
HW = st.sampled_from([2, 2, 2, 3, 4])


@st.composite
def clock(draw, sep, hours=True, frac=None):
    d = {'k': 'clock', 'm': f'{draw(_num(0, 59)):02d}', 's': f'{draw(_num(0, 59)):02d}', 'sep': sep}
    if hours is True or (hours == 'opt' and draw(st.booleans())):
        d['h'] = str(draw(HOURS)).zfill(draw(HW))
    else:
        d['h'] = None
    d['f'] = draw(frac)
    return d


DIGITS = '0123456789'
FRAC3 = st.one_of(st.integers(0, 999), st.sampled_from([0, 1, 10, 99, 100, 999])).map(
    lambda n: f'{n:03d}')
FRAC_ANY = st.one_of(
    st.none(), FRAC3, st.text(DIGITS, min_size=1, max_size=3),
    st.text(DIGITS, min_size=4, max_size=12), st.text(DIGITS, min_size=13, max_size=40),
    st.sampled_from(['0', '9', '000001', '0000001', '9999999', '999999', '0009999', '5']))

DEC = st.one_of(st.none(), st.none(), st.text(DIGITS, min_size=1, max_size=3),
                st.text(DIGITS, min_size=4, max_size=15))


@st.composite
def offset(draw):
    u = draw(st.sampled_from(['h', 'm', 's', 'ms', 'f']))
    top = {'h': 999, 'm': 59999, 's': 3599999, 'ms': 3599999999, 'f': 107999999}[u]
    n = draw(st.one_of(st.integers(0, min(top, 99)), st.integers(0, top)))
    v = str(n)
    if draw(st.integers(0, 9)) == 0:
        v = v.zfill(len(v) + 2)
    d = draw(DEC)
    if d is not None:
        v += '.' + d
    return {'k': 'offset', 'v': v, 'u': u}


@st.composite
def frames(draw):
    return {'k': 'frames', 'h': str(draw(HOURS)).zfill(draw(HW)),
            'm': f'{draw(_num(0, 59)):02d}', 's': f'{draw(_num(0, 59)):02d}',
            'f': f'{draw(_num(0, 29)):02d}'}


def ordered(pair, strict=False):
    a, b = pair
    return [a, b] if serial.t_micros(a) <= serial.t_micros(b) else [b, a]


def judge(cs, lang_expected, ctx, doc):
    """cs vs {lang: [(start, end, lines)]} (exact Fractions, floored here)"""
    langs = cs.get_languages()
    nontriv = False
    for lang, exp in lang_expected.items():
        got = list(cs.get_captions(lang)) if lang in langs else []
        g = [(c.start, c.end) for c in got]
        e = [(floor(s), floor(t)) for s, t, _ in exp]
        nontriv |= any(s for s, _ in e)
        if len(g) != len(e):
            fail(f'{len(g)} captions read, {len(e)} non-empty cues in the document',
                 lang=lang, got=[(c.start, c.end, c.get_text()) for c in got], expected=e,
                 document=doc)
        for i, (x, y) in enumerate(zip(g, e)):
            check(x[0] == y[0] and x[1] == y[1], f'cue {i}: wrong instants', lang=lang, got=x,
                  expected=y, document=doc)
            check(float(x[0]).is_integer() and not isinstance(x[0], float) and
                  not isinstance(x[1], float),
                  'times are not integers', got=x, document=doc)
            check(cap_lines(got[i]) == [n for ln in exp[i][2] for n in norm_lines(ln)],
                  f'cue {i}: not the text of this cue (order or content)',
                  got=cap_lines(got[i]), expected=exp[i][2], document=doc)
    extra = [lg for lg in langs if lg not in lang_expected and cs.get_captions(lg)]
    check(not extra, 'captions under an unexpected language', languages=extra, document=doc)
    if not nontriv:
        ctx.trivial()


# ------------------------------------------------------------------------- SRT
@st.composite
def srt_case(draw):
    n = draw(st.integers(1, 5))
    sp = clock(',', True, st.one_of(FRAC3, FRAC3, FRAC3, st.none()))
    cues = [[*ordered(draw(st.tuples(sp, sp))), draw(TEXT_OR_EMPTY)] for _ in range(n)]
    if not any(c[2] for c in cues):
        cues[0][2] = ['w']
    # a cue without text is followed by exactly one blank line: with more, the existing
    # suite pins an empty caption (known finding C01-srt-empty-cue)
    gaps = [draw(st.sampled_from([1, 1, 2, 3])) if c[2] else 1 for c in cues]
    return {'cues': cues, 'eol': draw(EOL), 'gaps': gaps,
        'tail': draw(st.sampled_from(['', '\n', '\n\n', '\n\n\n'] if cues[-1][2]
                                     else ['', '\n'])),
        'first': draw(st.sampled_from([1, 1, 0, 7, 99999])),
        'pad': draw(st.sampled_from(['', '', '', ' ', '\t ', '   '])),
        'lang': draw(st.sampled_from([None, 'en-US', 'fr', 'zz-Latn']))}


def run_srt(case, ctx):
    from pycaption import SRTReader
    doc = serial.srt([(serial.t_text(a), serial.t_text(b), ls) for a, b, ls in case['cues']],
                     eol=case['eol'], gap=case['gaps'],
                     tail=case['tail'].replace('\n', case['eol']), start=case['first'], pad=case.get('pad', ''))
    kw = {} if case['lang'] is None else {'lang': case['lang']}
    cs = SRTReader().read(doc, **kw)
    exp = [(serial.t_micros(a), serial.t_micros(b), ls) for a, b, ls in case['cues'] if ls]
    if any(not ls for _, _, ls in case['cues']):
        ctx.label('empty cue')
    if any(int(a['h']) >= 24 for a, _, _ in case['cues']):
        ctx.label('>=24h')
    judge(cs, {case['lang'] or 'en-US': exp}, ctx, doc)


# ------------------------------------------------------------------------- WebVTT
VTT_SETTINGS = st.sampled_from(['', '', '', ' align:left', ' position:10% line:20%',
                                '  size:50%', '\talign:end', ' '])


@st.composite
def vtt_case(draw):
    n = draw(st.integers(1, 5))
    sp = clock('.', 'opt', FRAC3)
    strict = draw(st.booleans())
    cues = []
    for _ in range(n):
        a, b = ordered(draw(st.tuples(sp, sp)))
        cues.append([a, b, draw(TEXT_OR_EMPTY)])
    if strict:
        cues.sort(key=lambda c: serial.t_micros(c[0]))
    if not any(c[2] for c in cues):
        cues[0][2] = ['w']
    blocks = []
    for c in cues:
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            blocks.append({'note': draw(st.sampled_from(
                [['NOTE comment'], ['NOTE', 'two', 'lines'], ['NOTE']]))})
        blocks.append({'cue': c, 'id': draw(st.sampled_from([None, None, '1', 'intro', 'a b'])),
                       'set': draw(VTT_SETTINGS),
                       'arrow': draw(st.sampled_from([' --> ', ' --> ', '  -->\t', '\t-->  ']))})
    if draw(st.integers(0, 4)) == 0:
        blocks.append({'note': ['NOTE the end']})
    low = min(serial.t_micros(c[0]) for c in cues)
    shift = draw(st.one_of(st.just(0), st.integers(-min(10 ** 9, int(low // 1000)), 10 ** 9),
                           st.sampled_from([1, 999, 1000, 60000])))
    return {'blocks': blocks, 'gaps': draw(st.lists(st.sampled_from([1, 1, 2, 3]), min_size=1,
                                                    max_size=3)),
            'eol': draw(EOL), 'header': draw(st.sampled_from(
                ['WEBVTT', 'WEBVTT', 'WEBVTT - title', 'WEBVTT\tx', 'WEBVTT\nKind: captions'])),
            'tail': draw(st.sampled_from(['', '\n', '\n\n'])), 'shift': shift, 'strict': strict,
            'defaults': draw(st.booleans()) and shift == 0,
            'style': draw(st.sampled_from([False, False, True])),
            'lang': draw(st.sampled_from([None, 'en-US', 'fr']))}


def run_vtt(case, ctx):
    from pycaption import WebVTTReader
    blocks, exp = [], []
    if case['style']:
        blocks.append((['STYLE', '::cue { color: red }'], 1))
    for i, b in enumerate(case['blocks']):
        gap = case['gaps'][i % len(case['gaps'])]
        if 'note' in b:
            blocks.append((b['note'], gap))
            continue
        a, e, lines = b['cue']
        raw = ([b['id']] if b['id'] else []) + [
            serial.t_text(a) + b['arrow'] + serial.t_text(e) + b['set']] + lines
        blocks.append((raw, gap))
        if lines:
            sh = Fraction(case['shift']) * 1000
            exp.append((serial.t_micros(a) + sh, serial.t_micros(e) + sh, lines))
        else:
            ctx.label('empty cue')
    doc = serial.vtt(blocks, eol=case['eol'], header=case['header'].replace('\n', case['eol']),
                     tail=case['tail'].replace('\n', case['eol']))
    if case['defaults']:
        r = WebVTTReader()
    else:
        r = WebVTTReader(ignore_timing_errors=not case['strict'],
                         time_shift_milliseconds=case['shift'])
    if case['shift']:
        ctx.label('shift')
    kw = {} if case['lang'] is None else {'lang': case['lang']}
    judge(r.read(doc, **kw), {case['lang'] or 'en-US': exp}, ctx, doc)


# ------------------------------------------------------------------------- DFXP
@st.composite
def dfxp_case(draw):
    sp = st.one_of(clock('.', True, FRAC_ANY), clock('.', True, FRAC_ANY), frames(), offset(),
                   offset())
    divs = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        ps = []
        for _ in range(draw(st.integers(0, 4))):
            a, b = ordered(draw(st.tuples(sp, sp)))
            ps.append({'b': a, 'x': b, 'dur': draw(st.sampled_from([False, False, True])),
                       't': draw(TEXT_OR_EMPTY),
                       'empty': draw(st.sampled_from(['', ' ', '<br/>', '\n   \n', '<span/>']))})
        divs.append([draw(st.sampled_from([None, 'en', 'en', 'fr', 'de'])), ps])
    if not any(p['t'] for _, ps in divs for p in ps):
        a = draw(sp)
        divs[0][1].append({'b': a, 'x': a, 'dur': False, 't': ['w'], 'empty': ''})
    return {'divs': divs, 'tt_lang': draw(st.sampled_from([None, 'en', 'it'])),
            'eol': draw(st.sampled_from(['\n', '\r\n'])), 'indent': draw(st.booleans()),
            'nest': draw(st.integers(0, 4)) == 0}


def run_dfxp(case, ctx):
    from pycaption import DFXPReader
    from pycaption.base import DEFAULT_LANGUAGE_CODE as DEF
    divs, exp = [], {}
    for lang, ps in case['divs']:
        lg = lang or case['tt_lang'] or DEF
        exp.setdefault(lg, [])
        out = []
        for p in ps:
            s, x = serial.t_micros(p['b']), serial.t_micros(p['x'])
            end = s + x if p['dur'] else x
            attrs = {'begin': serial.t_text(p['b']),
                     ('dur' if p['dur'] else 'end'): serial.t_text(p['x'])}
            out.append((attrs, '<br/>'.join(serial.esc_xml(t) for t in p['t']) or p['empty']))
            if p['t']:
                # begin and dur are converted to microseconds separately
                exp[lg].append((s, floor(s) + floor(x) if p['dur'] else end, p['t'], end))
            ctx.label(p['b']['k'] + (p['b']['u'] if p['b']['k'] == 'offset' else ''))
        divs.append((lang, None, out))
    if len([1 for lg, _ in case['divs'] if lg]) > len({lg for lg, _ in case['divs'] if lg}):
        ctx.label('several divs of one language')
    doc = serial.dfxp(divs, tt_lang=case['tt_lang'], eol=case['eol'], indent=case['indent'])
    if case.get('nest') and len(divs) > 1 and divs[-1][0]:
        # the last div moves into the one before it, after that one's own paragraphs
        ctx.label('nested div')
        i = doc.rindex('</div>', 0, doc.rindex('<div'))
        j = doc.rindex('</div>')
        doc = doc[:i] + doc[i + 6:j] + '</div></div>' + doc[j + 6:]
    cs = DFXPReader().read(doc)
    # floor(begin)+floor(dur) and floor(begin+dur) differ by at most one microsecond; both
    # are accepted ("sub-microsecond remainders are dropped").
    for lg, lst in exp.items():
        got = cs.get_captions(lg)
        for i, e in enumerate(lst):
            if i < len(got) and got[i].end == floor(e[3]):
                lst[i] = (e[0], e[3], e[2])
            else:
                lst[i] = e[:3]
    judge(cs, exp, ctx, doc)


# ------------------------------------------------------------------------- SAMI
@st.composite
def sami_case(draw):
    nlang = draw(st.sampled_from([1, 1, 2, 2, 3]))
    langs = [['ENCC', 'en-US'], ['FRCC', 'fr-FR'], ['DECC', 'de']][:nlang]
    n = draw(st.integers(1, 6))
    t = draw(st.one_of(st.just(0), st.integers(0, 5000), st.integers(0, 3599000000)))
    syncs = []
    for i in range(n):
        ps = []
        for c, _ in langs:
            kind = draw(st.sampled_from(['text', 'text', 'text', 'blank', 'none', 'two', 'many']))
            if kind == 'text':
                ps.append([c, draw(TEXT)])
            elif kind == 'two':
                ps.append([c, draw(TEXT)])
                ps.append([c, draw(TEXT)])
            elif kind == 'many':
                ps += [[c, x] for x in draw(st.lists(st.one_of(TEXT, TEXT, st.just([])), min_size=3, max_size=4))]
            elif kind == 'blank':
                ps.append([c, []])
        syncs.append([t, ps])
        t += draw(st.one_of(st.integers(1, 10), st.integers(1, 5000), st.integers(1, 4 * 10 ** 6)))
    if not any(p[1] for _, ps in syncs for p in ps):
        syncs[0][1].append(['ENCC', ['w']])
    return {'langs': langs, 'syncs': syncs, 'style': {
        'lower': draw(st.booleans()), 'quote': draw(st.booleans()), 'close': draw(st.booleans())},
        'comment': draw(st.sampled_from([False, False, True])),
        'blank': draw(st.sampled_from(['&nbsp;', '&nbsp;', '', ' ']))}


def run_sami(case, ctx):
    from pycaption import SAMIReader
    lang_of = dict(case['langs'])
    syncs, events = [], {}
    for t, ps in case['syncs']:
        out = []
        for c, lines in ps:
            out.append((c, '<br>'.join(serial.esc_xml(x) for x in lines) or case['blank']))
            events.setdefault(lang_of[c], []).append((t, lines))
        syncs.append((str(t), out))
    exp = {}
    for lg, ev in events.items():
        res = []
        for t, lines in ev:
            if not lines:
                continue
            nxt = [u for u, _ in ev if u > t]
            res.append((t * 1000, (nxt[0] if nxt else t + 4000) * 1000, lines))
        exp[lg] = res
    head = None
    if case['comment']:
        ctx.label('css comment')
        head = serial.SAMI_HEAD.format(classes='/* languages */\n' + '\n'.join(
            f'.{c} {{ Name: {c}; lang: {lg}; SAMI_Type: CC; }}' for c, lg in case['langs']))
    doc = serial.sami(syncs, case['langs'], style=case['style'], head=head)
    judge(SAMIReader().read(doc), exp, ctx, doc)


# ------------------------------------------------------------------------- MicroDVD
FPS = st.one_of(st.none(), st.sampled_from(
    ['25', '25.0', '23.976', '29.97', '30', '24', '23.98', '59.94', '50', '60', '15', '12.5',
     '10', '29.970', '23.976024', '1', '100']),
    st.builds(lambda a, b: f'{a}.{b}', st.integers(1, 120), st.text(DIGITS, min_size=1, max_size=4)))


@st.composite
def mdvd_case(draw):
    fps = draw(FPS)
    rate = float(fps or 25)
    top = int(3600 * 1000 * rate) - 1
    cues = []
    for _ in range(draw(st.integers(1, 6))):
        a, b = sorted(draw(st.tuples(*[st.one_of(st.integers(0, 300), st.integers(0, top))] * 2)))
        if b == 0:
            b = 1
        cues.append([a, b, draw(TEXT_OR_EMPTY)])
    if not any(c[2] for c in cues):
        cues[0][2] = ['w']
    return {'fps': fps, 'cues': cues, 'eol': draw(st.sampled_from(['\n', '\n', '\r\n'])),
            'tail': draw(st.sampled_from(['', '\n', '\n\n'])),
            'empty': draw(st.sampled_from(['', '|'])),
            'blanks': draw(st.sampled_from([[], [], [], [1] * 6, [0, 1, 0, 2], [0, 0, 3, 0, 0, 1]])),
            'lang': draw(st.sampled_from([None, 'fr']))}


def run_mdvd(case, ctx):
    from pycaption import MicroDVDReader
    from pycaption.base import DEFAULT_LANGUAGE_CODE as DEF
    rate = Fraction(case['fps'] or '25')
    doc = serial.microdvd([(a, b, '|'.join(ls) or case['empty']) for a, b, ls in case['cues']],
                          fps=case['fps'], eol=case['eol'], blanks=case.get('blanks', ()),
                          tail=case['tail'].replace('\n', case['eol']))
    exp = [(Fraction(a) / rate * 10 ** 6, Fraction(b) / rate * 10 ** 6, ls)
           for a, b, ls in case['cues'] if ls]
    ctx.label('fps header' if case['fps'] else 'default fps')
    kw = {} if case['lang'] is None else {'lang': case['lang']}
    judge(MicroDVDReader().read(doc, **kw), {case['lang'] or DEF: exp}, ctx, doc)


# ------------------------------------------------------------------------- enumerations
def enum_clock(tier):
    """every value of every clock field, one field swept at a time, many cues per document"""
    hours = list(range(0, 1000)) if tier == 'thorough' else list(range(0, 130)) + [
        199, 239, 240, 255, 256, 500, 511, 512, 719, 720, 998, 999]
    for fmt in ('srt', 'vtt', 'dfxp'):
        for hm in (0, 1):
            base = (7, 8, 9, 10) if hm else (0, 0, 0, 0)
            sw = []
            sw += [(h, base[1], base[2], base[3]) for h in hours]
            sw += [(base[0], m, base[2], base[3]) for m in range(60)]
            sw += [(base[0], base[1], s, base[3]) for s in range(60)]
            sw += [(base[0], base[1], base[2], f) for f in range(1000)]
            for i in range(0, len(sw), 60):
                yield {'fmt': fmt, 'sweep': sw[i:i + 60]}


def run_clock(case, ctx):
    sep = ',' if case['fmt'] == 'srt' else '.'
    cues = []
    for h, m, s, f in case['sweep']:
        sp = {'k': 'clock', 'h': f'{h:02d}', 'm': f'{m:02d}', 's': f'{s:02d}', 'sep': sep,
              'f': f'{f:03d}'}
        cues.append([sp, sp, ['w']])
    if case['fmt'] == 'srt':
        run_srt({'cues': cues, 'eol': '\n', 'gaps': [1], 'tail': '\n', 'first': 1, 'lang': None}, ctx)
    elif case['fmt'] == 'vtt':
        run_vtt({'blocks': [{'cue': c, 'id': None, 'set': '', 'arrow': ' --> '} for c in cues],
                 'gaps': [1], 'eol': '\n', 'header': 'WEBVTT', 'tail': '\n', 'shift': 0,
                 'strict': False, 'defaults': True, 'style': False, 'lang': None}, ctx)
        # and without the hour field
        nocues = [[dict(c[0], h=None)] * 2 + [['w']] for c in cues]
        run_vtt({'blocks': [{'cue': c, 'id': None, 'set': '', 'arrow': ' --> '} for c in nocues],
                 'gaps': [1], 'eol': '\n', 'header': 'WEBVTT', 'tail': '\n', 'shift': 0,
                 'strict': False, 'defaults': True, 'style': False, 'lang': None}, ctx)
    else:
        run_dfxp({'divs': [['en', [{'b': c[0], 'x': c[1], 'dur': False, 't': c[2], 'empty': ''}
                                   for c in cues]]], 'tt_lang': None, 'eol': '\n',
                  'indent': True}, ctx)


def enum_dfxp(tier):
    for h in ('00', '01', '100'):
        yield {'k': 'frames', 'sp': [{'k': 'frames', 'h': h, 'm': '00', 's': '01', 'f': f'{f:02d}'}
                                     for f in range(30)]}
    fr = [f * n for n in range(1, 10) for f in ('0', '1', '5', '9')] + [
        '0' * n + '1' for n in range(0, 9)] + [str(n) for n in range(0, 100)] + [
        f'{n:02d}' for n in range(100)] + [f'{n:04d}' for n in range(0, 10000, 37)]
    for i in range(0, len(fr), 50):
        yield {'k': 'fraction', 'sp': [{'k': 'clock', 'h': '00', 'm': '00', 's': '01', 'sep': '.',
                                        'f': f} for f in fr[i:i + 50]]}
    for u in ('h', 'm', 's', 'ms', 'f'):
        vals = [str(n) for n in range(0, 260)] + [f'{n}.{d}' for n in (0, 1, 7, 59) for d in (
            '0', '1', '5', '25', '001', '999', '3333', '123456', '0000001')] + [
            f'1.{n:03d}' for n in range(0, 1000, 7 if tier == 'quick' else 1)]
        for i in range(0, len(vals), 60):
            yield {'k': 'offset-' + u, 'sp': [{'k': 'offset', 'v': v, 'u': u}
                                              for v in vals[i:i + 60]]}


def run_dfxp_sweep(case, ctx):
    run_dfxp({'divs': [['en', [{'b': sp, 'x': sp, 'dur': i % 2 == 1, 't': ['w'], 'empty': ''}
                               for i, sp in enumerate(case['sp'])]]],
              'tt_lang': None, 'eol': '\n', 'indent': True}, ctx)


def enum_mdvd(tier):
    top = 40000 if tier == 'thorough' else 6000
    for fps in (None, '23.976', '24', '25', '29.97', '30', '50', '59.94', '12.5'):
        for lo in range(0, top, 500):
            yield {'fps': fps, 'lo': lo}
        for lo in (86399 * 25, 10 ** 6, 3599 * 1000 * 20):
            yield {'fps': fps, 'lo': lo}
    # frames whose time is a whole number of microseconds, all over the thousand hours: what a float loses there
    for fps in ('23.976', '24', '25', '29.97', '30', '50', '59.94', '12.5', '23.98', '29.970', '23.976024', '15', '60'):
        p = (Fraction(fps) / 10 ** 6).numerator
        top = int(3600 * 1000 * Fraction(fps)) // p
        n = min(top, 6000 if tier == 'quick' else 60000)
        for j in range(0, n, 500):
            yield {'fps': fps, 'frames': [p * (top * (j + i) // n) for i in range(1, 501)]}


def run_mdvd_sweep(case, ctx):
    frames = case['frames'] if 'frames' in case else range(case['lo'], case['lo'] + 500)
    run_mdvd({'fps': case['fps'], 'cues': [[n, n + 1, ['w']] for n in frames], 'eol': '\n', 'tail': '\n', 'empty': '', 'lang': None}, ctx)


# ------------------------------------------------------------------------- hundreds of cues
def long(tier):
    clocks = {sep: [[big.clock(a, sep), big.clock(b, sep), [f'w{i}'] if i % 9 else []]
                    for i, (a, b) in enumerate(big.times(big.pick(sep), 1200))] for sep in ',.'}
    for first in (1, 95, 990):
        yield {'cues': clocks[','], 'eol': '\n', 'gaps': [1], 'tail': '\n', 'first': first, 'lang': None}
    yield {'blocks': [{'cue': c, 'id': str(i) if i % 3 else None, 'set': '', 'arrow': ' --> '}
                      for i, c in enumerate(clocks['.'])], 'gaps': [1], 'eol': '\n', 'header': 'WEBVTT', 'tail': '\n',
           'shift': 0, 'strict': True, 'defaults': False, 'style': False, 'lang': None}
    ps = [{'b': a, 'x': b, 'dur': False, 't': ls, 'empty': ''} for a, b, ls in clocks['.']]
    yield {'divs': [['en', ps[:300]]], 'tt_lang': None, 'eol': '\n', 'indent': True, 'nest': False}
    yield {'divs': [[['en', 'fr', 'de'][i % 3], ps[5 * i:5 * i + 5]] for i in range(50)], 'tt_lang': None, 'eol': '\n',
           'indent': False, 'nest': False}
    r = big.pick('sami')
    yield {'langs': [['ENCC', 'en-US'], ['FRCC', 'fr-FR']], 'comment': False, 'blank': '&nbsp;',
           'style': {'lower': False, 'quote': False, 'close': True}, 'syncs': [
               [777 * i, [['ENCC', r.choice([[f'w{i}'], [f'w{i}', 'x'], []])], ['FRCC', [f'v{i}']]][:1 + i % 2]]
               for i in range(300)]}
    for fps in (None, '23.976'):
        yield {'fps': fps, 'cues': [[i * 1700, i * 1700 + 90 + i, [f'w{i}']] for i in range(1200)], 'eol': '\n',
               'tail': '', 'empty': '', 'lang': None}


def run_long(case, ctx):
    (run_vtt if 'blocks' in case else run_dfxp if 'divs' in case else run_sami if 'syncs' in case else
     run_mdvd if 'fps' in case else run_srt)(case, ctx)


FACETS = [
    Facet('srt', srt_case, run_srt, 4000),
    Facet('webvtt', vtt_case, run_vtt, 4000),
    Facet('dfxp', dfxp_case, run_dfxp, 3500),
    Facet('sami', sami_case, run_sami, 3000),
    Facet('microdvd', mdvd_case, run_mdvd, 4000),
    Enum('clock-fields', enum_clock, run_clock),
    Enum('dfxp-spellings', enum_dfxp, run_dfxp_sweep),
    Enum('microdvd-frames', enum_mdvd, run_mdvd_sweep),
    Enum('long', long, run_long, hang_s=60),
]
