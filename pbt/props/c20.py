"""C20: format detection is total, consistent and recognises pycaption's own output."""
import re
from itertools import product

from pbt import docs, model, sets, writers
from pbt.core import Enum, Facet, check
from pbt.gen import hostile_line, st, words
from pbt.props import c08, c17

PROPERTY = 'C20'
RULE = ('Strings: all short ones over two alphabets (characters and markers), longer random ones, every prefix of '
        'generated documents of the six formats; detect_format must return the first of the six readers, in the '
        'documented order, whose own detect accepts, and nothing may raise. Outputs of the eight writers from '
        'generated sets: the reader of the format must be returned and must read the document. Non-trivial: strings '
        'with a digit or marker; sets with visible text.')
ASSUMPTIONS = [
    'texts, names and styles with a marker of a format ("</tt>", "<sami", "WEBVTT", "{1}{2}", "-->", the Scenarist '
    'header) are not written, nor the sentence "no closed captioning available", which SAMIReader refuses',
    'a document without any cue (its language has none) may be refused with CaptionReadNoCaptions',
    'style names and style sheet values of sets written to SAMI are valid CSS (the reader refuses an invalid colour); '
    'sets the writer refuses (missing video size, fit to screen of absolute units) give no document',
    'SCC: captions can be transmitted in time and last 0.2 s at least (as in C17); shorter ones are refused',
]
ORDER = ['DFXPReader', 'MicroDVDReader', 'WebVTTReader', 'SAMIReader', 'SRTReader', 'SCCReader']
OF = {'srt': 'SRTReader', 'webvtt': 'WebVTTReader', 'dfxp': 'DFXPReader', 'single': 'DFXPReader',
      'legacy': 'DFXPReader', 'sami': 'SAMIReader', 'microdvd': 'MicroDVDReader', 'scc': 'SCCReader'}
MARKER = re.compile(r'</?tt|<sami|WEBVTT|[{]\d*[}]|-->|Scenarist|no closed captioning|<html', re.I)


def known_frame0(facet, case, msg):
    """a caption that begins and ends in frame 0 is written like the line that gives the frame rate"""
    return (case.get('writer') == 'microdvd' and msg.startswith('the reader') and '{0}{0}' in msg and
            any(c['s'] < 40000 and c['e'] < 40000 for _, lst in case['set']['langs'] for c in lst['caps']))


KNOWN = {'microdvd-frame-0': known_frame0}


def detect(s):
    """checks detection of a string, returns the name of the reader or None"""
    import pycaption
    want = None
    for name in ORDER:
        try:
            hit = getattr(pycaption, name)().detect(s)
        except Exception as e:  # noqa: B902
            check(False, f'{name}.detect raised', string=s, error=repr(e))
        if hit and want is None:
            want = name
    try:
        got = pycaption.detect_format(s)
    except Exception as e:  # noqa: B902
        check(False, 'detect_format raised', string=s, error=repr(e))
    check(got is (getattr(pycaption, want) if want else None), 'detect_format did not return the first reader that '
          'accepts the string', string=s, got=repr(got), want=want)
    return want


def run_string(case, ctx):
    if case['s'] == '':
        import pycaption
        try:
            got = pycaption.detect_format('')
        except pycaption.CaptionReadNoCaptions:
            ctx.label('empty')
            return
        check(False, 'the empty string was not refused', got=repr(got))
    if not any(c.isdigit() for c in case['s']) and not MARKER.search(case['s']):
        ctx.trivial()
    ctx.label(str(detect(case['s'])))


def run_batch(case, ctx):
    n = 0
    for rest in product(ALPHABETS[case['a']], repeat=case['n']):
        detect(case['prefix'] + ''.join(rest))
        n += 1
    ctx.label(f'{n} strings')


def run_prefixes(case, ctx):
    if 'bytes' in case:
        s = case['bytes']
    else:
        d = case['doc']
        s = d if isinstance(d, str) else d['text']
    ctx.label('document')
    for i in range(1, len(s) + 1):
        detect(s[:i])
    for i in range(1, min(len(s), 40)):
        detect(s[i:])


def strings(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from strings(k)
            yield from strings(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from strings(v)
    elif isinstance(x, str):
        yield x


def texts(spec):
    for lg, lst in spec['langs']:
        yield lg
        for c in lst['caps']:
            yield from strings(c.get('style'))
            joined = ''
            for n in c['nodes']:
                if n[0] == 't':
                    joined += n[1]
                elif n[0] == 's':
                    yield from strings(n[2])
            yield joined
    yield from strings(spec.get('styles'))


def run_output(case, ctx):
    import pycaption
    spec, w = case['set'], case['writer']
    ctx.require(not any(MARKER.search(t) for t in texts(spec)), 'a marker in the text')
    visible = [[c for c in lst['caps'] if any(x and x.strip() for x in (
        ''.join(n[1] for n in c['nodes'] if n[0] == 't'),))] for _, lst in spec['langs']]
    ctx.require(any(visible), 'no visible text')
    ctx.require(all(len(v) == len(lst['caps']) for v, (_, lst) in zip(visible, spec['langs'])), 'an invisible caption')
    ctx.label(w)
    cs = model.mk_set(spec)
    opts = case.get('opts', {})
    try:
        doc = writers.make(w, opts if w in ('dfxp', 'webvtt', 'sami', 'single') else None).write(cs)
    except pycaption.exceptions.RelativizationError:
        ctx.require(False, 'refused by the writer')
    except ValueError:
        ctx.require(opts.get('relativize', True) or not opts.get('fit_to_screen', True), 'refused by the writer')
        raise
    if doc == '':
        return
    got = detect(doc)
    check(got == OF[w], 'the output is not detected as what it is', writer=w, got=got, doc=doc)
    empty = not (visible[0] if w in ('webvtt', 'scc') else any(visible))
    try:
        back = getattr(pycaption, got)().read(doc)
    except Exception as e:  # noqa: B902
        check(empty and isinstance(e, pycaption.CaptionReadNoCaptions), 'the reader does not read the output',
              error=repr(e), doc=doc)
        return
    check(not back.is_empty() or empty, 'the reader reads nothing', doc=doc)
    # once more with the very reader that detected it
    r = getattr(pycaption, got)()
    r.detect(doc)
    check(model.d_set(r.read(doc)) == model.d_set(back), 'detecting changes what is read', doc=doc)


# ---------------------------------------------------------------- generators
CHARS = '1\n{}-> x'
TOKENS = ['1', '12', '\n', '\r\n', '{0}{1}', '{', '}', '-->', ' ', '</tt>', '<SAMI', 'WEBVTT', 'Scenarist_SCC V1.0', 'x',
          '²', '\u2028', '\x0b', '٣', '</TT>', '\ufeff', '00:00:01,000 --> 00:00:02,000', '-1', '\x1c', '\x85']
ALPHABETS = {'c': CHARS, 't': TOKENS}


def short(tier):
    for n in range(0, 5):
        for x in product(CHARS, repeat=n):
            yield {'s': ''.join(x)}
    for n in range(0, 3):
        for x in product(TOKENS, repeat=n):
            yield {'s': ''.join(x)}


def batches(tier):
    k, m = (2, 1) if tier == 'quick' else (4, 2)
    for x in product(CHARS, repeat=4):
        yield {'a': 'c', 'prefix': ''.join(x), 'n': k}
    for x in product(TOKENS, repeat=2):
        yield {'a': 't', 'prefix': ''.join(x), 'n': m + 0}
        if tier != 'quick':
            continue


@st.composite
def string(draw):
    piece = st.one_of(st.sampled_from(TOKENS), st.sampled_from(TOKENS), st.text(max_size=6),
                      st.text(st.sampled_from('0123456789\n\r{}<>-/tT sSaAmMiI:,WEBVT'), max_size=8),
                      st.sampled_from(['WEBVTT\n\n', '1\n00:00:01,000 --> 00:00:02,000\nx\n', '{1}{2}x',
                                       'scenarist_scc v1.0', ' Scenarist_SCC V1.0\n', '<tt></tt>', '<sami>',
                                       '١\nx --> y', '\n1\n-->', '1 \n-->', '1\r-->', '{１}{２}']))
    parts = draw(st.lists(piece, min_size=1, max_size=7))
    if draw(st.integers(0, 4)) == 0:        # what decides is far from the start or the end
        for _ in range(draw(st.integers(1, 2))):
            parts.insert(draw(st.integers(0, len(parts))), draw(st.sampled_from(['x', '\n', 'x\n', ' ', 'ab\r\n', '1'])) *
                         draw(st.sampled_from([100, 300, 1100, 5000, 17000])))
    s = ''.join(parts)
    return {'s': s or '1'}


@st.composite
def prefixes(draw):
    return {'doc': draw(docs.doc())}


def not_marked(s):
    return not MARKER.search(s)


@st.composite
def output(draw):
    w = draw(st.sampled_from(['srt', 'webvtt', 'dfxp', 'single', 'legacy', 'sami', 'microdvd', 'srt', 'microdvd']))
    c = {'writer': w, 'set': draw(sets.caption_set(hostile=draw(st.booleans()), web=True, min_langs=1))}
    if w == 'sami':      # its reader refuses an invalid colour, and the style sheet is CSS
        for name in list(c['set']['styles']):
            if not re.fullmatch(r'[^\W\d]([\w.-]*\w)?', name):
                del c['set']['styles'][name]
        for sty in c['set']['styles'].values():
            for k in sets.KEYS:
                if k in sty:
                    sty[k] = c08.VALID.get(k, 'Arial')
    if draw(st.booleans()):
        c['opts'] = draw(sets.wopts())
    else:
        c['opts'] = {'video_width': 640, 'video_height': 360}
    return c


@st.composite
def simple_output(draw):
    """odd texts and times in simple sets, first cues of all kinds"""
    w = draw(st.sampled_from(list(OF)))
    langs = []
    for lg in draw(st.lists(st.sampled_from(['en', 'fr', 'de']), min_size=1, max_size=2, unique=True)):
        caps, t = [], draw(st.sampled_from([0, 0, 1, 20000, 1000000, 86000 * 10 ** 6]))
        for _ in range(draw(st.integers(0 if langs or draw(st.integers(0, 9)) == 0 else 1, 3))):
            e = t + draw(st.sampled_from([1, 1000, 20000, 39999, 40000, 1000000, 5000000]))
            line = st.one_of(words(), hostile_line(4), st.sampled_from(['1', '12', '25.0', '0', '1\xa0', '٣', '²', '{', 'x}',
                                                                        '00:00', 'tt', '-', '->', '- ->', 'NOTE', 'NOTE x',
                                                                        'STYLE', 'REGION', '/x', '$', '&nbsp;', '#'])
                             ).filter(lambda s: s.strip() and not_marked(s))
            caps.append({'s': t, 'e': e, 'nodes': model.lines_nodes(draw(st.lists(line, min_size=1, max_size=3)))})
            t = e + draw(st.sampled_from([0, 1, 40000, 1000000]))
        langs.append([lg, {'caps': caps}])
    if w == 'scc':
        langs = [['en', {'caps': [{'s': c['s'], 'e': c['e'], 'nodes': model.lines_nodes(c['lines'])}
                                  for c in draw(c17.captions())['caps']]}]]
    if w != 'scc' and draw(st.integers(0, 20)) == 0:      # a long document
        n = draw(st.sampled_from([40, 130, 300]))
        langs[-1][1]['caps'] += [{'s': t + i * 1000000, 'e': t + i * 1000000 + 900000, 'nodes': [['t', f'more {i}']]}
                                 for i in range(n)]
    return {'writer': w, 'set': {'langs': langs}}


# ---------------------------------------------------------------- very long documents
def very_long(tier):
    for w in OF:
        for n in (600, 6000) if w != 'scc' else (600, 2500):
            yield {'writer': w, 'n': n}
    for n in (70000, 270000) if tier == 'quick' else (70000, 270000, 1100000, 5000000):
        for fill in ('x\n', 'word ', '\n', '1\n'):
            for m in ('</tt>', '<SAMI', 'WEBVTT', '-->', '{0}{1}', 'Scenarist_SCC V1.0', '1'):
                yield {'fill': fill, 'm': m, 'len': n}


def run_very_long(case, ctx):
    if 'm' in case:
        s = case['fill'] * (case['len'] // len(case['fill']))
        for whole in (s + case['m'], case['m'] + s, s + case['m'] + s):
            ctx.label(f'{len(whole) // 10 ** 4}0 k characters: {detect(whole)}')
        return
    caps = [{'s': 3000000 * i, 'e': 3000000 * i + 2000000, 'nodes': [['t', f'line {i} of many words that are there']]}
            for i in range(case['n'])]
    run_output({'writer': case['writer'], 'set': {'langs': [['en', {'caps': caps}]]}}, ctx)


FACETS = [
    Enum('very-long', very_long, run_very_long, hang_s=120),
    Enum('short', short, run_string),
    Enum('batches', batches, run_batch),
    Facet('string', string(), run_string, quick=6000, thorough=200000),
    Facet('prefixes', prefixes(), run_prefixes, quick=150, thorough=3000),
    Facet('simple-output', simple_output(), run_output, quick=2000, thorough=40000),
    Facet('output', output(), run_output, quick=1500, thorough=30000),
]
