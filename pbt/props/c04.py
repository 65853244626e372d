"""C04: read text equals authored text."""
import html.entities
import re

from pbt import serial
from pbt.core import Enum, Facet, HarnessError, check
from pbt.gen import META, WORDS, printable_chars, st
from pbt.model import cap_lines, norm_lines

PROPERTY = 'C04'
RULE = ('A case is a document of one text format whose cue bodies are lists of (raw source, '
        'displayed text) pieces: characters under every reference spelling, blanks, source line '
        'wraps, line-break markup, nested inline tags, comments, voice and unknown tags. The '
        'caption text read must equal the concatenated displayed pieces, line by line. '
        'Non-trivial: some piece is not plain text (raw differs from displayed).')
ASSUMPTIONS = [
    'SRT and MicroDVD have no markup besides their line breaks: their text is literal',
    'DFXP documents use the five XML entities and numeric references (no DTD); xml:space '
    'preserve, metadata elements and namespace prefixes for tt elements are not generated',
    'SAMI named references are those of HTML 4 plus apos; for others the existing suite pins '
    'undecoded text without the semicolon (known finding C04-sami-html5-entity)',
    'a DFXP source wrap directly before </span> is followed by a blank (the suite pins that the '
    'wrap itself displays nothing: known finding C04-dfxp-wrap-before-end-tag)',
]
FORMATS = ['dfxp', 'dfxp', 'sami', 'sami', 'vtt', 'vtt', 'srt', 'microdvd']
XML5 = {'&': 'amp', '<': 'lt', '>': 'gt', '"': 'quot', "'": 'apos'}
HTML4 = {chr(c): n for n, c in html.entities.name2codepoint.items()}
HTML5 = {}
for _n, _v in html.entities.html5.items():
    if _n.endswith(';') and len(_v) == 1 and _v.isprintable():
        HTML5.setdefault(_v, []).append(_n[:-1])
MUST = {'dfxp': '&<', 'sami': '&<', 'vtt': '&<', 'srt': '', 'microdvd': ''}


# ------------------------------------------------------------------------ pieces
def named(fmt, ch, draw):
    if fmt == 'dfxp':
        n = XML5.get(ch)
    elif fmt == 'sami':
        n = HTML4.get(ch) or ('apos' if ch == "'" else None)
    else:
        n = HTML5.get(ch)
        n = draw(st.sampled_from(n)) if n else None
    return f'&{n};' if n else None


@st.composite
def char(draw, fmt, ch):
    if MUST[fmt] == '':
        return [ch, ch]
    how = draw(st.sampled_from(['raw', 'raw', 'named', 'dec', 'hex']))
    if how == 'raw' and ch not in MUST[fmt]:
        return [ch, ch]
    if how in ('named', 'raw'):
        r = named(fmt, ch, draw)
        if r:
            return [r, ch]
        how = 'dec'
    z = '0' * draw(st.sampled_from([0, 0, 0, 1, 3]))
    if how == 'dec':
        return [f'&#{z}{ord(ch)};', ch]
    x = 'x' if fmt == 'dfxp' else draw(st.sampled_from(['x', 'x', 'X']))
    h = f'{ord(ch):x}'
    return [f'&#{x}{z}{h.upper() if draw(st.booleans()) else h};', ch]


def minimal(fmt, s):
    """raw text with only the mandatory escapes"""
    for c, n in (('&', 'amp'), ('<', 'lt')):
        if c in MUST[fmt]:
            s = s.replace(c, f'&{n};')
    return s


BAD = {'srt': re.compile(r'</?[A-Za-z]'), 'microdvd': re.compile(r'[{}|]|^/|</?[A-Za-z]')}
VTT_CLASS = st.sampled_from(['', '', '.red', '.a.b', '.bg_blue', '.first-loud', '.x1.y2'])
VTT_UNKNOWN = ['bogus', 'x', 'font color="red"', 'div', 'blink', 'ib', 'vv', 'cc', 'uu', 'rtx', 'video',
               'B', 'I', 'V Bob', 'span class="i"', 'rubyx', 'langx en', 'tag.cls', 'img/', 'it', 'url', '00:01',
               'center', 'base', 'under']
VOICES = ['Bob', 'Mary Ann', 'Éva', 'A &amp; B', 'X&lt;Y', 'M.C.', 'O\'Hara', 'R2-D2', 'a  b', '&#65;']


@st.composite
def token(draw, fmt):
    """one visible text token (list of pieces)"""
    k = draw(st.integers(0, 9))
    if k <= 2:
        w = draw(st.sampled_from(WORDS))
        return [[w, w]]
    if k <= 6:
        chs = draw(st.lists(st.one_of(printable_chars(), st.sampled_from('&<>"\';#x')),
                            min_size=1, max_size=4))
        return [draw(char(fmt, c)) for c in chs]
    m = draw(st.sampled_from(META))
    return [[minimal(fmt, m), m]]


@st.composite
def special(draw, fmt, depth):
    if fmt == 'dfxp':
        k = draw(st.sampled_from(['wrap', 'wrap', 'br', 'el', 'el', 'comment', 'cdata', 'pi', 'empty',
                                  'ref', 'brs']))
        if k == 'el' and depth:
            tag = draw(st.sampled_from([
                '<span tts:fontStyle="italic">', '<span tts:fontWeight="bold">', '<span>',
                '<span tts:textDecoration="underline">', '<span tts:color="red">',
                "<span tts:color='red' tts:fontStyle='italic' >", '<span\n tts:color="blue">',
                '<span style="s1">']))
            return [[tag, '']] + draw(content(fmt, depth - 1)) + [['</span>', '']]
        if k == 'comment':
            return [[draw(st.sampled_from(['<!-- note -->', '<!--x-->', '<!-- <b> & -->',
                                           '<!-- a\n b -->'])), '']]
        if k == 'cdata':
            t = draw(st.sampled_from(['a<b', 'x &amp; y', '<i>z</i>', 'plain', '&lt;', '>>', '<br/>']))
            return [[f'<![CDATA[{t}]]>', t]]
        if k == 'pi':
            return [['<?target data?>', '']]
        if k == 'empty':
            return [[draw(st.sampled_from(['<span/>', '<span></span>', '<span tts:color="red"/>'])), '']]
        if k == 'ref':
            return [[draw(st.sampled_from(['&#10;', '&#32;', '&#9;', '&#xA;'])), ' ']]
        if k == 'brs':
            return [['<br/>', '\n'], ['\n   ', ' '], ['<br/>', '\n']]
        if k == 'br':
            return [[draw(st.sampled_from(['<br/>', '<br />', '<br></br>', '<br\n/>',
                                           '<br tts:color="red"/>'])), '\n']]
    elif fmt == 'sami':
        k = draw(st.sampled_from(['wrap', 'wrap', 'br', 'el', 'el', 'comment', 'empty', 'amp', 'nbsp',
                                  'unk', 'brs']))
        if k == 'el' and depth:
            a, b = draw(st.sampled_from([
                ('<i>', '</i>'), ('<I>', '</I>'), ('<b>', '</b>'), ('<u>', '</u>'),
                ('<SPAN Style="font-style:italic">', '</SPAN>'), ('<span class="x">', '</span>'),
                ('<span style="color:red;">', '</span>'), ('<font color="red">', '</font>'),
                ('<FONT COLOR=red>', '</FONT>'), ('<div>', '</div>'), ('<span>', '</span>'),
                ('<span style="text-align:right;">', '</span>'), ('<em>', '</em>'),
                ('<span title="a > b">', '</span>'), ('<span title="&quot;q&quot; &lt;x&gt;">', '</span>')]))
            return [[a, '']] + draw(content(fmt, depth - 1)) + [[b, '']]
        if k == 'comment':
            return [[draw(st.sampled_from(['<!-- note -->', '<!--x-->', '<!-- a & b\n c -->'])), '']]
        if k == 'empty':
            return [draw(st.sampled_from([['<i></i>', ''], ['<span></span>', ''], ['<b> </b>', ' ']]))]
        if k == 'amp':
            return [[' & ', ' & ']]
        if k == 'nbsp':
            return [['&nbsp;', ' ']]
        if k == 'brs':
            return [['<br>', '\n'], ['\n   ', ' '], ['<BR>', '\n']]
        if k == 'br':
            return [[draw(st.sampled_from(['<br/>', '<br>', '<BR>', '<br />', '<BR/>'])), '\n']]
    elif fmt == 'vtt':
        k = draw(st.sampled_from(['br', 'el', 'el', 'ts', 'voice', 'voice', 'unk', 'ref', 'empty', 'close']))
        if k == 'el' and depth:
            n = draw(st.sampled_from(['c', 'i', 'b', 'u', 'ruby', 'rt', 'lang']))
            a = n + draw(VTT_CLASS)
            a += ' en-GB' if n == 'lang' else draw(st.sampled_from(['', '', '', ' note', ' ']))
            return [[f'<{a}>', '']] + draw(content(fmt, depth - 1)) + [[f'</{n}>', '']]
        if k == 'ts':
            return [[draw(st.sampled_from(['<00:01.000>', '<00:00:01.000>', '<123:59:59.999>'])), '']]
        if k == 'voice':
            v = draw(st.sampled_from(VOICES))
            shown = v.replace('&lt;', '<').replace('&amp;', '&').replace('&#65;', 'A')
            sep = draw(st.sampled_from([' ', ' ', '  ', '\t']))
            out = [[f'<v{draw(VTT_CLASS)}{sep}{v}>', shown + ': ']]
            if draw(st.booleans()) and depth:
                out += draw(content(fmt, depth - 1)) + [['</v>', '']]
            return out
        if k == 'unk':
            t = draw(st.sampled_from(VTT_UNKNOWN))
            t = draw(st.sampled_from([f'<{t}>', f'</{t.split()[0]}>']))
            return [[t, t]]
        if k == 'ref':
            return [draw(st.sampled_from([['&nbsp;', ' '], ['&lrm;', '\u200e'], ['&rlm;', '\u200f'],
                                          ['&bogus;', '&bogus;'], ['&#8206;', '\u200e']]))]
        if k == 'empty':
            return [['<i></i>', '']]
        if k == 'close':
            return [[draw(st.sampled_from(['</c>', '</i>', '</v>', '</ruby>'])), '']]
        if k == 'br':
            blank = draw(st.sampled_from([[], [], [['  ', ' '], ['\n', '\n']],
                                          [['\t', ' '], ['\n', '\n']],
                                          [['<i></i>', ''], ['\n', '\n']]]))
            return [['w', 'w'], ['\n', '\n'], *blank, ['z', 'z']]
    elif fmt == 'srt':
        return [['w', 'w'], ['\n', '\n'], ['z', 'z']]
    else:
        return [['w', 'w'], ['|', '\n'], ['z', 'z']]
    w = draw(st.sampled_from(['\n', '\n    ', '  \n', '\n\t', '\n  \n ', '\r\n  ']))
    return [[w, ' ']] if fmt in ('dfxp', 'sami') else [[' ', ' ']]


@st.composite
def content(draw, fmt, depth=2):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 5))
        if k <= 2:
            out += draw(token(fmt))
        elif k == 3:
            out.append(draw(st.sampled_from([[' ', ' '], [' ', ' '], ['   ', ' '], ['\t', ' ']])))
        else:
            out += draw(special(fmt, depth))
    return out


# The existing suite pins that a wrap before </span> displays nothing (known finding
# C04-dfxp-wrap-before-end-tag): there, put a blank after the end tag.
EDGE = re.compile(r'(?:[\r\n]|&#10;|&#xA;)(?:\s|&#\d+;|&#x\w+;)*$')


def pad_edges(cue):
    out, raw = [], ''
    for p in cue:
        out.append(p)
        if p[0] == '</span>' and EDGE.search(raw):
            out.append([' ', ' '])
            raw += p[0] + ' '
        else:
            raw += p[0]
    return out


def body(cue):
    return ''.join(r for r, _ in cue), ''.join(d for _, d in cue)


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(FORMATS))
    cues = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        pre = draw(st.sampled_from([[], [['\n      ', ' ']], [['\n', ' ']]])) if fmt in ('dfxp', 'sami') else []
        post = draw(st.sampled_from([[], [['\n    ', ' ']], [['\n', ' ']], [['  ', ' ']]])) \
            if fmt in ('dfxp', 'sami') else []
        cue = pre + draw(content(fmt)) + post
        cues.append(pad_edges(cue) if fmt == 'dfxp' else cue)
    opt = {}
    if fmt == 'sami':
        opt = {'lower': draw(st.booleans()), 'quote': draw(st.booleans()), 'close': draw(st.booleans())}
    return {'f': fmt, 'cues': cues, 'opt': opt, 'eol': draw(st.sampled_from(['\n', '\n', '\r\n']))}


SEEN_OK = re.compile(r'[^\W_]|[^\s\u200e\u200f]')


def expected(cue):
    return norm_lines(body(cue)[1])


def document(case, ctx):
    f, cues = case['f'], case['cues']
    raw = [body(c)[0] for c in cues]
    for r, c in zip(raw, cues):
        ls = r.split('\n')
        if f in ('srt', 'vtt'):
            # (a line of blanks only ends an SRT cue, but not a WebVTT cue)
            ctx.require(all(x.strip() if f == 'srt' else x for x in ls),
                        'source line without text')
        if f == 'vtt':
            ctx.require('-->' not in r, 'raw arrow in WebVTT text')
        if f in BAD:
            ctx.require(not BAD[f].search(r.replace('\n', ' ') if f == 'srt' else
                                          re.sub(r'\|', '', r)), 'markup-like literal text')
        if f == 'microdvd':
            ctx.require('|' not in body(c)[1], 'literal | in MicroDVD text')
            ctx.require(all(p.strip() for p in r.split('|')), 'empty MicroDVD line')
        if f == 'sami':
            low = r.lower()
            ctx.require('no closed caption' not in low and '<html' not in low, 'marker text')
            # a raw "<!" or "</" can only come from the pieces meant as markup
        ctx.require(re.search(r'[^\s\u200e\u200f]', body(c)[1].replace('\n', '')),
                    'no visible character')
    eol = case['eol']
    if f in ('srt', 'vtt'):
        raw = [r.replace('\n', eol) for r in raw]
    n = len(cues)
    if f == 'srt':
        return serial.srt([(f'00:00:{i:02d},000', f'00:00:{i:02d},900', [raw[i]]) for i in range(n)],
                          eol=eol)
    if f == 'vtt':
        return serial.vtt([([f'00:{i:02d}.000 --> 00:{i:02d}.900', raw[i]], 1) for i in range(n)], eol=eol)
    if f == 'microdvd':
        return serial.microdvd([(i * 25 + 25, i * 25 + 45, raw[i]) for i in range(n)], eol=eol)
    if f == 'dfxp':
        doc = serial.dfxp([('en', {}, [({'begin': f'{i}s', 'end': f'{i}.9s'}, raw[i])
                                       for i in range(n)])], tt_lang='en')
        from lxml import etree
        if ']]>' in re.sub(r'<!\[CDATA\[.*?\]\]>', '', doc, flags=re.S):
            ctx.require(False, 'raw ]]> is not allowed in XML text')
        try:
            etree.fromstring(doc.encode())
        except etree.XMLSyntaxError as e:
            raise HarnessError(f'generated DFXP is not well-formed: {e}\n{doc}')
        return doc
    return serial.sami([(str(i * 1000 + 1000), [('ENCC', raw[i])]) for i in range(n)],
                       [('ENCC', 'en-US')], case['opt'])


def run(case, ctx):
    from pbt.writers import reader
    f = case['f']
    doc = document(case, ctx)
    ctx.label(f)
    cs = reader({'vtt': 'webvtt'}.get(f, f)).read(doc)
    langs = cs.get_languages()
    check(len(langs) == 1, 'not exactly one language', got=langs, document=doc)
    got = [cap_lines(c) for c in cs.get_captions(langs[0])]
    exp = [expected(c) for c in case['cues']]
    if not any(r != d for c in case['cues'] for r, d in c):
        ctx.trivial()
    for c in case['cues']:
        for r, d in c:
            if r != d:
                ctx.label(f + (':wrap' if d == ' ' and '\n' in r else ':ref' if r[0] == '&' else
                               ':escaped' if '&' in r else ':markup'))
    check(got == exp, 'the text read differs from the text displayed', got=got, expected=exp,
          document=doc)
    for c in cs.get_captions(langs[0]):
        # the public accessor returns the same text
        check(norm_lines(c.get_text()) == cap_lines(c), 'get_text() disagrees with the nodes',
              got=c.get_text(), document=doc)


# ------------------------------------------------------------------- enumerations
def refs(tier):
    """every reference once, and its double-escaped spelling"""
    for f in ('dfxp', 'sami', 'vtt'):
        if f == 'dfxp':
            names = [(n, c) for c, n in XML5.items()]
        elif f == 'sami':
            names = sorted({**{n: chr(c) for n, c in html.entities.name2codepoint.items()},
                            'apos': "'"}.items())
        else:
            names = sorted((n[:-1], v) for n, v in html.entities.html5.items() if n.endswith(';'))
        pieces = []
        for n, c in names:
            if c.isprintable() and c.strip():
                pieces.append([f'&{n};', c])
            pieces.append([f'&amp;{n};', f'&{n};'])
            if len(n) > 1:
                pieces.append([f'&#38;{n};', f'&{n};'])
            pieces.append([f'&amp;amp;{n};', f'&amp;{n};'])
        top = 0x2400 if tier == 'quick' else 0x1fbff
        step = 1 if tier != 'quick' else 3
        for cp in range(0x21, top, step):
            if chr(cp).isprintable() and chr(cp).strip():
                pieces.append([f'&#{cp};', chr(cp)])
                pieces.append([f'&#x{cp:X};', chr(cp)])
                if cp < 0x180:
                    pieces.append([f'&amp;#{cp};', f'&#{cp};'])
        for i in range(0, len(pieces), 40):
            cue = []
            for p in pieces[i:i + 40]:
                cue += [p, [' ', ' ']]
            yield {'f': f, 'cues': [cue], 'opt': {}, 'eol': '\n'}


def tags(tier):
    """WebVTT: every known tag, class, annotation and end tag; unknown tags stay literal"""
    known, unk = [], []
    for n in ('c', 'i', 'b', 'u', 'ruby', 'rt', 'lang'):
        for cls in ('', '.a', '.a.b', '.a-b', '._x', '.1'):
            for ann in ('', ' ', ' x', ' x y', '\tx', ' é'):
                known.append([f'<{n}{cls}{ann}>', ''])
        known.append([f'</{n}>', ''])
        for c in 'abcdefghijklmnopqrstuvwxyz0123456789_':
            if n + c not in ('rt', 'ruby', 'lang'):
                unk += [[f'<{n}{c}>', f'<{n}{c}>'], [f'</{n}{c}>', f'</{n}{c}>'],
                        [f'<{n}{c}.k z>', f'<{n}{c}.k z>'], [f'<{c}{n}>', f'<{c}{n}>']
                        if not (c.isdigit()) and c + n not in ('rt',) else ['a', 'a']]
    for c in 'adefghjklmnopqrstwxyzABCIUV':
        unk += [[f'<{c}>', f'<{c}>'], [f'</{c}>', f'</{c}>'], [f'<{c}.c>', f'<{c}.c>']]
    for h in ('', '00:', '1:', '123:'):
        known.append([f'<{h}00:01.000>' if h != '1:' else '<01:00:01.000>', ''])
    for cls in ('', '.a', '.a.b', '.a-b', '.é'):
        for name in ('Bob', 'Mary Ann', 'é', '日本', 'J. R.', 'a:b'):
            known.append([f'<v{cls} {name}>', name + ': '])
    known.append(['</v>', ''])
    for lst in (known, unk):
        for p in lst:
            yield {'f': 'vtt', 'cues': [[['x ', 'x '], p, [' y', ' y']], [p, ['z', 'z']],
                                        [['z', 'z'], p, ['w', 'w'], p]], 'opt': {}, 'eol': '\n'}


def wraps(tier):
    """DFXP/SAMI: every small arrangement of words, wraps, blanks, breaks and spans"""
    import itertools
    for f in ('dfxp', 'sami'):
        o, c = ('<span tts:fontStyle="italic">', '</span>') if f == 'dfxp' else ('<i>', '</i>')
        items = {'a': ['a', 'a'], 'b': ['b', 'b'], 'n': ['\n  ', ' '], 's': [' ', ' '],
                 'r': ['<br/>', '\n'], '(': [o, ''], ')': [c, ''], 'm': ['<!--k-->', '']}
        for n in range(1, 7 if tier == 'quick' else 8):
            for seq in itertools.product('anr()s' if n > 4 else 'anr()sm', repeat=n):
                if 'a' not in seq:
                    continue
                d = 0
                for x in seq:
                    d += (x == '(') - (x == ')')
                    if d not in (0, 1):
                        break
                else:
                    if d == 0:
                        yield f, [items[x] for x in seq]


def wrap_cases(tier):
    acc = {}
    for f, cue in wraps(tier):
        acc.setdefault(f, []).append(pad_edges(cue) if f == 'dfxp' else cue)
        if len(acc[f]) == 60:
            yield {'f': f, 'cues': acc.pop(f), 'opt': {}, 'eol': '\n'}
    for f, cues in acc.items():
        yield {'f': f, 'cues': cues, 'opt': {}, 'eol': '\n'}


FACETS = [
    Facet('text', case, run, 9000),
    Enum('references', refs, run),
    Enum('webvtt-tags', tags, run),
    Enum('wraps', wrap_cases, run),
]
