"""C02: writing preserves every cue's start and end instant."""
from fractions import Fraction
from itertools import groupby, product
from math import floor

from pbt import big, parsers
from pbt.core import Enum, Facet, check, fail
from pbt.gen import st
from pbt.model import mk_set, norm_lines, num
from pbt.writers import make

PROPERTY = 'C02'
RULE = ('A case is a caption set (1-3 languages, integer microsecond times or the float times '
        'NTSC frame arithmetic gives), a writer and its options; the output is parsed by an '
        'independent parser. Non-trivial: some instant is at least one second, so carries '
        'and truncation are exercised.')
ASSUMPTIONS = [
    'a float instant may be truncated directly or after rounding to the nearest microsecond '
    '(float noise); both readings are accepted',
    'several languages in SAMI: cues of a language are sorted and do not overlap',
]
DAY = 86400 * 10 ** 6


def floors(t, unit):
    """admissible truncations of t (in units of `unit` microseconds)"""
    if isinstance(t, int):
        return {t // unit}
    f = Fraction(t)
    return {floor(f / unit), floor(Fraction(round(f)) / unit)}


def ms_set(t):
    return {v * 1000 for v in floors(t, 1000)}


# ------------------------------------------------------------------ generators
INSTANT = st.one_of(
    st.integers(0, DAY - 1),
    st.builds(lambda h, m, s, u: ((h * 60 + m) * 60 + s) * 10 ** 6 + u,
              st.integers(0, 23), st.sampled_from([0, 1, 9, 10, 58, 59]),
              st.sampled_from([0, 1, 9, 10, 58, 59]),
              st.sampled_from([0, 1, 999, 1000, 1001, 9999, 10000, 99999, 100000, 500000,
                               999000, 999499, 999500, 999999])),
    st.integers(0, 3 * 10 ** 6),
    st.builds(lambda f, d: max(0, f * 40000 + d), st.integers(0, 2159999),
              st.sampled_from([-1, 0, 1])),
)


def ntsc(frames, drop):
    """the way SCC time codes become microseconds: float seconds x 1e6"""
    sec = frames // 30 + (frames % 30) / 30.0
    if not drop:
        sec = sec * 1001.0 / 1000.0
    return sec * 1000 * 1000


FLOAT_INSTANT = st.builds(ntsc, st.one_of(st.integers(0, 2586000), st.integers(0, 9000)),
                          st.booleans()).map(lambda f: ['f', repr(f)])


@st.composite
def caps(draw, floats, sort, tag):
    n = draw(st.integers(1, 6))
    inst = FLOAT_INSTANT if floats else INSTANT
    pts = draw(st.lists(inst, min_size=2 * n, max_size=2 * n))
    if sort:
        pts.sort(key=num)
    out = []
    for i in range(n):
        a, b = pts[2 * i], pts[2 * i + 1]
        if num(a) > num(b):
            a, b = b, a
        k = draw(st.integers(0, 5))
        if out and k == 0:                       # same times as the one before
            a, b = out[-1]['s'], out[-1]['e']
        elif out and k in (1, 2) and num(out[-1]['e']) <= num(b):   # back to back
            a = out[-1]['e']
        elif k == 3:
            b = a
        c = {'s': a, 'e': b, 'nodes': [['t', f'{tag}{i} word']]}
        if draw(st.integers(0, 3)) == 0:
            c['nodes'] += [['b'], ['t', 'second']]
        out.append(c)
    if sort:
        for p, q in zip(out, out[1:]):
            if num(q['s']) < num(p['e']):
                q['s'] = p['e']
            if num(q['e']) < num(q['s']):
                q['e'] = q['s']
    return out


WRITERS = ['srt', 'webvtt', 'dfxp', 'single', 'legacy', 'sami', 'microdvd']
OPTS = st.sampled_from([{}, {}, {}, {'relativize': False}, {'fit_to_screen': False},
                        {'video_width': 640, 'video_height': 360}])


@st.composite
def case(draw, floats=False):
    w = draw(st.sampled_from(WRITERS))
    nl = draw(st.sampled_from([1, 1, 1, 2, 3]))
    langs = ['en-US', 'fr-FR', 'de'][:nl]
    sort = draw(st.booleans()) or (w == 'sami' and nl > 1)
    d = {'langs': [[lg, {'caps': draw(caps(floats, sort, lg[0]))}] for lg in langs]}
    if w == 'webvtt' and draw(st.booleans()):
        for _, l in d['langs']:
            for c in l['caps']:
                if draw(st.booleans()):
                    c['nodes'] = [n if n[0] == 'b' else n + [
                        {'o': [[str(10 * (j + 1)), '%'], ['10', '%']]}] for j, n in enumerate(c['nodes'])]
    o = draw(OPTS)
    if w == 'dfxp' and draw(st.booleans()):
        o = dict(o, write_inline_positioning=True)
    if w == 'legacy':
        o = {}
    lang = None
    if w in ('webvtt', 'dfxp', 'single', 'legacy') and draw(st.booleans()):
        lang = draw(st.sampled_from(langs))
    return {'set': d, 'writer': w, 'opts': o, 'lang': lang}


# ------------------------------------------------------------------ oracle
def match(written, caps, unit_sets, merge, split, doc):
    """written: [(s, e, lines)], caps: spec captions.  Groups runs of captions with the same
    admissible written times; each run must yield the right number of cues and its text in
    order."""
    exp = [(frozenset(unit_sets(num(c['s']))), frozenset(unit_sets(num(c['e']))), c) for c in caps]
    i = 0
    j = 0
    while j < len(exp):
        # maximal run of captions that could be written with the same times
        k = j
        while k < len(exp) and exp[k][0] & exp[j][0] and exp[k][1] & exp[j][1]:
            k += 1
        run = [e[2] for e in exp[j:k]]
        distinct = len([1 for _ in groupby(run, key=lambda c: (num(c['s']), num(c['e'])))])
        lo = distinct if merge else len(run)
        hi = sum(sum(n[0] == 't' for n in c['nodes']) for c in run) if split else len(run)
        m = i
        while m < len(written) and m - i < hi and written[m][0] in exp[j][0] | exp[k - 1][0] \
                and written[m][1] in exp[j][1] | exp[k - 1][1]:
            m += 1
        if m - i < lo:
            fail('a cue is missing or its written times are wrong', caption=run[0],
                 expected=(sorted(exp[j][0]), sorted(exp[j][1])),
                 written=written[m][:2] if m < len(written) else None,
                 all_written=[w[:2] for w in written], document=doc)
        want = [x for c in run for n in c['nodes'] if n[0] == 't' for x in norm_lines(n[1])]
        got = [x for w in written[i:m] for ln in w[2] for x in norm_lines(ln.replace('\xa0', ' '))]
        check(got == want, 'cues out of order or text of another cue', expected=want, got=got,
              document=doc)
        i, j = m, k
    check(i == len(written), 'extra cues written', extra=written[i:], document=doc)


def frame_set(t):
    return floors(t, 40000)


def check_sami(doc, spec):
    d = parsers.sami(doc)
    langs = parsers.css_langs(d['style'], doc)
    per = {}
    for s in d['syncs']:
        for p in s['ps']:
            lg = langs.get((p['class'] or '').lower())
            per.setdefault(lg, []).append((s['start'], None if parsers.blank(p['lines'])
                                           else p['lines']))
    want = [lg for lg, _ in spec['langs']]
    check(set(per) <= set(want), 'paragraph of an unknown language', got=sorted(map(str, per)),
          document=doc)
    for lg, l in spec['langs']:
        got = per.get(lg, [])
        i = 0
        cs = l['caps']
        for n, c in enumerate(cs):
            st_ = floors(num(c['s']), 1000)
            check(i < len(got), 'cue missing', caption=c, language=lg, document=doc)
            check(got[i][1] is not None and got[i][0] in st_, 'wrong sync start', caption=c,
                  expected=sorted(st_), got=got[i], document=doc)
            texts = [x for k in c['nodes'] if k[0] == 't' for x in norm_lines(k[1])]
            check([x for ln in got[i][1] for x in norm_lines(ln)] == texts,
                  'cue out of order', caption=c, got=got[i], document=doc)
            i += 1
            if n + 1 < len(cs):
                en = floors(num(c['e']), 1000)
                nx = floors(num(cs[n + 1]['s']), 1000)
                has_blank = i < len(got) and got[i][1] is None
                if has_blank:
                    check(got[i][0] in en, 'blank sync at the wrong time', caption=c,
                          expected=sorted(en), got=got[i][0], document=doc)
                    check(not (en == nx and len(en) == 1), 'blank sync although the next cue '
                          'starts at that millisecond', caption=c, document=doc)
                    i += 1
                else:
                    check(en & nx, 'no blank sync at the end of a cue', caption=c,
                          next=cs[n + 1], document=doc)
        check(i == len(got), 'extra paragraphs', extra=got[i:], language=lg, document=doc)


def run(case, ctx):
    spec, w = case['set'], case['writer']
    cs = mk_set(spec)
    kw = {}
    sel = spec['langs']
    if case.get('lang'):
        kw = {'lang' if w == 'webvtt' else 'force': case['lang']}
        sel = [x for x in sel if x[0] == case['lang']]
    doc = make(w, case['opts']).write(cs, **kw)
    ctx.label(w)
    allcaps = [c for _, l in spec['langs'] for c in l['caps']]
    if all(num(c['e']) < 10 ** 6 for c in allcaps):
        ctx.trivial()
    if any(isinstance(c['s'], list) for c in allcaps):
        ctx.label('float times')
    if w == 'srt':
        parts = parsers.srt_multi(doc)
        check(len(parts) == len(sel), 'language sections lost', document=doc)
        for part, (_, l) in zip(parts, sel):
            match(part, l['caps'], ms_set, True, False, doc)
    elif w == 'webvtt':
        if not case.get('lang'):
            sel = sel[:1]
        cues = parsers.vtt(doc)
        match([(c['s'], c['e'], c['lines']) for c in cues], sel[0][1]['caps'], ms_set, False,
              True, doc)
    elif w in ('dfxp', 'single', 'legacy'):
        d = parsers.dfxp(doc)
        check([lg for lg, _ in d['divs']] == [lg for lg, _ in sel], 'wrong divs', document=doc)
        for (_, ps), (_, l) in zip(d['divs'], sel):
            match([(p['s'], p['e'], p['lines']) for p in ps], l['caps'], ms_set,
                  w != 'dfxp', False, doc)
    elif w == 'microdvd':
        cues = parsers.mdvd(doc)
        match(cues, [c for _, l in sel for c in l['caps']], frame_set, False, False, doc)
    else:
        check_sami(doc, spec)


# ------------------------------------------------------------------ enumeration
def enum(tier):
    step = 1 if tier == 'thorough' else 3
    sweeps = []
    for base in ((0, 0, 0, 0), (13, 7, 8, 9999)):
        sweeps += [((h * 60 + base[1]) * 60 + base[2]) * 10 ** 6 + base[3] for h in range(24)]
        sweeps += [((base[0] * 60 + m) * 60 + base[2]) * 10 ** 6 + base[3] for m in range(60)]
        sweeps += [((base[0] * 60 + base[1]) * 60 + s) * 10 ** 6 + base[3] for s in range(60)]
        sweeps += [((base[0] * 60 + base[1]) * 60 + base[2]) * 10 ** 6 + ms * 1000 + u
                   for ms in range(0, 1000, step) for u in (0, 999)]
    for w in WRITERS:
        for i in range(0, len(sweeps), 80):
            yield {'w': w, 'ts': sweeps[i:i + 80]}
    fr = list(range(0, 4000 if tier == 'quick' else 60000)) + list(range(0, 2160000, 1009))
    for i in range(0, len(fr), 100):
        yield {'w': 'microdvd', 'ts': [max(0, min(DAY - 1, f * 40000 + d)) for f in fr[i:i + 100]
                                       for d in (-1, 0, 1)]}


def run_enum(case, ctx):
    ts = sorted(set(case['ts']))
    spec = {'langs': [['en-US', {'caps': [
        {'s': t, 'e': u, 'nodes': [['t', f'w{i}']]} for i, (t, u) in enumerate(
            zip(ts, ts[1:] + ts[-1:]))]}]]}
    run({'set': spec, 'writer': case['w'], 'opts': {}, 'lang': None}, ctx)


def long(tier):
    for w in WRITERS:
        for k in range(1 if tier == 'quick' else 4):
            n = 250 if w in ('dfxp', 'single', 'legacy', 'sami') else 1200
            yield {'set': {'langs': [['en-US', {'caps': big.caps(f'{w}{k}', n)}]]}, 'writer': w, 'opts': {}, 'lang': None}
            if w in ('dfxp', 'legacy', 'sami', 'srt'):
                yield {'set': {'langs': [[lg, {'caps': big.caps(f'{w}{k}{lg}', 110)}] for lg in ('en-US', 'fr-FR')]},
                       'writer': w, 'opts': {}, 'lang': None}


# ------------------------------------------------------------------ languages without cues
def no_cues(tier):
    for w in WRITERS:
        for counts in [(), *product(range(3), repeat=1), *product(range(3), repeat=2), *product(range(3), repeat=3)]:
            if 0 in counts or not counts:
                yield {'writer': w, 'counts': counts}


def run_no_cues(case, ctx):
    w, langs = case['writer'], list(zip(['en-US', 'fr-FR', 'de'], case['counts']))
    caps = {lg: [{'s': (10 * k + i) * 10 ** 6, 'e': (10 * k + i) * 10 ** 6 + 900000, 'nodes': [['t', f'w{k}{i}']]}
                 for i in range(n)] for k, (lg, n) in enumerate(langs, 1)}
    doc = make(w, {}).write(mk_set({'langs': [[lg, {'caps': caps[lg]}] for lg, _ in langs]}))
    ctx.label(w)
    parsers.need_str(doc)
    if w == 'sami':
        if doc:
            check_sami(doc, {'langs': [[lg, {'caps': caps[lg]}] for lg, _ in langs]})
        return
    if w == 'srt':
        got = [c for part in (parsers.srt_multi(doc) if doc else []) for c in part]
    elif w == 'webvtt':
        got = [(c['s'], c['e'], c['lines']) for c in parsers.vtt(doc)]
    elif w == 'microdvd':
        got = parsers.mdvd(doc) if doc else []
    else:
        got = [(p['s'], p['e'], p['lines']) for _, ps in parsers.dfxp(doc)['divs'] for p in ps]
    sel = langs[:1] if w == 'webvtt' else langs
    want = [(c['s'], c['e'], c['nodes'][0][1]) for lg, _ in sel for c in caps[lg]]
    check([(g[0], g[1], ' '.join(g[2]).strip()) for g in got] ==
          [x if w != 'microdvd' else (x[0] // 40000, x[1] // 40000, x[2]) for x in want],
          'not the cues there are', want=want, got=got, document=doc)


FACETS = [
    Facet('integer-times', lambda: case(False), run, 7000),
    Facet('float-times', lambda: case(True), run, 3500),
    Enum('no-cues', no_cues, run_no_cues),
    Enum('field-sweeps', enum, run_enum),
    Enum('long', long, run, hang_s=60),
]
