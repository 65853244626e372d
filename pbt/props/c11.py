"""C11: italic, bold and underline spans survive conversion and stay balanced."""
import html
import re

from pbt import docs, model, parsers, scc608 as cc, sets, writers
from pbt.core import Facet, check, fail
from pbt.gen import hostile_line, st, words

PROPERTY = 'C11'
RULE = ('A case is a caption set with flat style spans anywhere between texts and breaks (API-built, or read '
        'from a document of one of the six formats, SCC with arbitrary mid-row codes included) and a path of '
        'conversions through DFXP and SAMI, or a WebVTT output. Per visible character the italic flags (with '
        'only SAMI on the path and in WebVTT: bold and underline too) must be those of before; the markup of '
        'every output must be balanced and every caption read must have balanced style nodes. Non-trivial: '
        'a visible character is styled.')
ASSUMPTIONS = [
    'visible characters are those that are not white space',
    'documents with nested spans are judged on balance only',
    'bold and underline are not compared once DFXP is on the path (its writer does not carry them)',
]
FLAGS = ['italics', 'bold', 'underline']
OPTS = {'video_width': 640, 'video_height': 360}


def resolve(style, cs, parents=()):
    out = {}
    for c in style.get('classes') or ([style['class']] if 'class' in style else []):
        if c not in parents:
            out.update(resolve(cs.get_style(c), cs, parents + (c,)))
    out.update(style)
    return out


def marks(cs, which, classes=False, own=False):
    """per language and caption, the visible characters with their flags"""
    def flags(style):
        r = resolve(style, cs) if classes else style
        return frozenset(f for f in which if r.get(f))
    out = {}
    for lg in cs.get_languages():
        rows = out[lg] = []
        for c in cs.get_captions(lg):
            base = flags(c.style) if own else frozenset()
            stack, chars = [], []
            for n in c.nodes:
                if n.type_ == n.STYLE:
                    if n.start:
                        stack.append(flags(n.content))
                    elif stack:
                        stack.pop()
                elif n.type_ == n.TEXT:
                    f = base.union(*stack)
                    chars += [(ch, tuple(sorted(f))) for ch in n.content if not ch.isspace()]
            if chars:
                rows.append(chars)
    return out


def balanced(cs, what):
    for lg in cs.get_languages():
        for c in cs.get_captions(lg):
            open_ = []
            for n in c.nodes:
                if n.type_ == n.STYLE:
                    if n.start:
                        open_.append(n.content)
                    else:
                        check(open_, f'{what}: a span ends that was not started', nodes=c.nodes)
                        check(open_.pop() == n.content, f'{what}: a span ends with another style', nodes=c.nodes)
            check(not open_, f'{what}: a span is left open', nodes=c.nodes)


TAG = re.compile(r'''<(/?)([a-zA-Z]+)(?:[^<>"']|"[^"]*"|'[^']*')*?(/?)>''')


def sami_balance(out):
    body = out[out.lower().index('<body'):out.lower().rindex('</body>') + 7]
    stack = []
    for m in TAG.finditer(body):
        name = m.group(2).lower()
        if m.group(3) or name == 'br':
            continue
        if not m.group(1):
            stack.append(name)
        else:
            check(stack and stack[-1] == name, f'SAMI: </{name}> does not close the innermost element {stack}',
                  output=out)
            stack.pop()
    check(not stack, f"SAMI: unclosed elements {stack}", output=out)


def vtt_cues(out, merged=False):
    """[(timing line, payload lines)]; a timing line starts a cue wherever it stands"""
    lines = out.split('\n')
    cues = []
    for ln in lines[1:]:
        if '-->' in ln:
            cues.append((ln, []))
        elif cues:
            cues[-1][1].append(ln)
    return cues


def vtt_marks(out):
    rows = []
    for timing, lines in vtt_cues(out):
        _, chars, problems = parsers.vtt_text(lines)
        check(not problems, 'WebVTT: tags of a cue are not balanced', problems=problems, cue=lines, output=out)
        row = [(ch, tuple(sorted(f for f, on in zip(FLAGS, fl) if on))) for ln in chars for ch, fl in ln
               if not ch.isspace()]
        rows.append((timing.split(' align')[0].split(' position')[0].split(' line')[0].split(' size')[0], row))
    return rows


def write(cs, fmt):
    return writers.make(fmt, {} if fmt == 'legacy' else OPTS).write(cs)


def markup(out, fmt):
    if fmt == 'sami':
        sami_balance(out)
    elif fmt in ('dfxp', 'legacy', 'single'):
        parsers.xml(out)
    elif fmt == 'webvtt':
        vtt_marks(out)


def same(before, after, what, **detail):
    # the names of the languages are another property's
    check(len(before) == len(after), f'{what}: languages lost or added', before=list(before), after=list(after))
    named = sorted(before) == sorted(after)
    for rows, rows2 in [(before[k], after[k]) for k in before] if named else zip(
            *(sorted(x.values()) for x in (before, after))):
        check(len(rows) == len(rows2), f'{what}: captions lost or added', before=rows, after=rows2, **detail)
        for a, b in zip(rows, rows2):
            if a != b:
                if [x[0] for x in a] == [x[0] for x in b]:
                    fail(f'{what}: other characters are styled', before=runs(a), after=runs(b), **detail)
                fail(f'{what}: text changed', before=runs(a), after=runs(b), **detail)


def runs(chars):
    out = []
    for ch, f in chars:
        if out and out[-1][1] == f:
            out[-1][0] += ch
        else:
            out.append([ch, f])
    return out


def flat(cs):
    depth = 0
    for lg in cs.get_languages():
        for c in cs.get_captions(lg):
            depth = 0
            for n in c.nodes:
                if n.type_ == n.STYLE:
                    depth += 1 if n.start else -1
                    if depth > 1:
                        return False
    return True


def one_layout(cs):
    """every span lies within nodes of one layout"""
    for lg in cs.get_languages():
        for c in cs.get_captions(lg):
            seen, inside = set(), False
            for n in c.nodes:
                if n.type_ == n.STYLE:
                    inside, seen = n.start, set()
                elif inside and n.type_ == n.TEXT:
                    seen.add(repr(model.d_layout(n.layout_info)))
                    if len(seen) > 1:
                        return False
    return True


def run(case, ctx):
    if 'doc' in case:
        try:
            cs = docs.read(case['doc'])
        except Exception as e:  # noqa: B902
            ctx.require(False, f'reader refused the document: {type(e).__name__}')
        balanced(cs, case['doc']['fmt'] + ' reader')
        ctx.label('from ' + case['doc']['fmt'])
    else:
        cs = model.mk_set(case['set'])
    if not any(f for rows in marks(cs, FLAGS, True, True).values() for r in rows for _, f in r):
        ctx.trivial()
    ctx.require(all(re.fullmatch('[A-Za-z0-9-]+', k) for k in cs.get_languages()), 'odd language name')
    ctx.require(all(marks(cs, FLAGS).values()), 'a language without visible characters')
    path = case['path']
    ctx.label('path ' + '>'.join(path))
    judged = flat(cs) and one_layout(cs)
    if not judged:
        ctx.label('nested or across layouts: balance only')
    start = cs
    for i, fmt in enumerate(path):
        what = '>'.join(path[:i + 1])
        out = write(cs, fmt)
        if fmt == 'webvtt' and not judged:
            break
        markup(out, fmt)
        if fmt == 'webvtt':
            webvtt(cs, out)
            break
        cs = writers.reader(fmt if fmt == 'sami' else 'dfxp').read(out)
        balanced(cs, what + ' read back')
        if judged and fmt in ('legacy', 'single'):
            # these put the captions of one time into one
            one, two = ({k: [sum(rows, [])] for k, rows in marks(x, ['italics']).items()} for x in (start, cs))
            same(one, two, what, output=out)
        elif judged:
            which = FLAGS if set(path[:i + 1]) == {'sami'} else ['italics']
            same(marks(start, which), marks(cs, which), what, output=out)
            if set(path[:i + 1]) == {'dfxp'} and not (start.get_style('p') or start.get_style('default')):
                same(marks(start, which, True, True), marks(cs, which, True, True), what + ' (classes)', output=out)
            elif case.get('flat'):
                same(marks(start, which, True), marks(cs, which, True), what + ' (classes)', output=out)


def webvtt(cs, out):
    lg = cs.get_languages()[0]
    want = marks(cs, FLAGS, True, True)[lg]
    rows = vtt_marks(out)
    # the cues of one caption follow each other
    i = 0
    for w in want:
        got = []
        while i < len(rows) and (not got or len(got) < len(w)):
            got += rows[i][1]
            i += 1
        same({lg: [w]}, {lg: [got]}, 'WebVTT', output=out)


SPAN = [{'italics': True}, {'italics': True}, {'bold': True}, {'underline': True},
        {'italics': True, 'bold': True}, {'italics': True, 'underline': True, 'bold': True},
        {'color': 'red'}, {'color': 'red', 'italics': True}, {'font-family': 'A "B"', 'underline': True},
        {'italics': True, 'font-size': '12px'}, {}, {'italics': False},
        {'bold': False, 'italics': True}, {'underline': False}]
LAYOUTS = [None, {'a': ['left', 'top']}, {'o': [['10', '%'], ['20', '%']], 'a': ['center', 'bottom']},
           {'o': [['10', '%'], ['70', '%']], 'e': [['50', '%'], ['10', '%']]}]


def text():
    return st.one_of(words(1, 2), st.sampled_from(['a', ' a', 'a ', ' a b ', '.', '-', '(x)', 'é', '1']),
                     hostile_line(3), st.just(' '))


@st.composite
def content(draw, lay, lo, hi, lays=()):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        if draw(st.integers(0, 3)) == 0:
            out.append(['b', draw(st.sampled_from([None, lay]))])
        else:
            out.append(['t', draw(text()), lay if draw(st.integers(0, 3)) or not lays else draw(st.sampled_from(lays))])
    return out


@st.composite
def cap_nodes(draw, lays, spans):
    out = []
    for k in range(draw(st.integers(1, 3 if len(lays) > 1 else 1))):
        lay = draw(st.sampled_from(lays))
        if k:
            out.append(['b', draw(st.sampled_from([None, lay]))])
        for _ in range(draw(st.integers(1, 4))):
            if draw(st.integers(0, 2)):
                sty = draw(st.sampled_from(spans))
                sl = draw(st.sampled_from([None, lay]))
                out += [['s', True, sty, sl]] + draw(content(lay, 0, 3, lays)) + [['s', False, sty, sl]]
            else:
                out += draw(content(lay, 1, 2))
    out.insert(draw(st.sampled_from([0, len(out)])), ['t', draw(words(1, 1)), lay if out[-1] else None])
    if out[0][0] == 't' and len(lays) > 1:
        out[0][2] = next((n[2] for n in out[1:] if n[0] == 't'), None)
    return out


@st.composite
def api(draw, paths, lays=None, classes=False):
    styles = {}
    spans = SPAN
    if classes:
        styles = {'c1': {'italics': True}, 'c2': {'bold': True, 'color': 'red'}, 'c3': {'class': 'c1', 'classes': ['c1']},
                  'c4': {'color': 'red'}}
        if classes == 'flat':
            # a style sheet of SAMI has no classes of classes
            styles['c3'] = {'underline': True, 'italics': True}
        spans = [{'class': c, 'classes': [c]} for c in styles] + [{'italics': True, 'class': 'c2', 'classes': ['c2']},
                                                                {'class': 'c1'}, {'class': 'nope', 'classes': ['nope']}]
    pool = [draw(st.sampled_from(LAYOUTS))] if not lays else draw(
        st.lists(st.sampled_from(LAYOUTS), min_size=2, max_size=3, unique_by=repr))
    langs = []
    t = 0
    for lg in draw(st.sampled_from([['en'], ['en', 'fr']])):
        caps = []
        for _ in range(draw(st.integers(1, 3))):
            t += 1000000
            own = draw(st.sampled_from([{}, {}, {'italics': True}, {'bold': True}, {'class': 'c1'}])) if classes else {}
            caps.append({'s': t, 'e': t + 900000, 'style': own, 'nodes': draw(cap_nodes(pool, spans))})
        langs.append([lg, {'caps': caps}])
    return {'set': {'langs': langs, 'styles': styles}, 'path': draw(st.sampled_from(paths)), 'flat': classes == 'flat'}


P_MAIN = [['dfxp', 'dfxp'], ['sami', 'sami'], ['dfxp', 'sami'], ['sami', 'dfxp'], ['webvtt'],
          ['dfxp', 'webvtt'], ['sami', 'webvtt'], ['legacy'], ['single']]


P_CLASS = [['dfxp', 'dfxp'], ['webvtt'], ['dfxp', 'webvtt'], ['sami', 'sami'], ['dfxp', 'sami'], ['sami', 'dfxp']]


@st.composite
def document(draw):
    fmt = draw(st.sampled_from(['dfxp', 'sami', 'scc', 'scc', 'webvtt', 'srt', 'microdvd']))
    d = draw(docs.doc([fmt]))
    return {'doc': d, 'path': draw(st.sampled_from(P_MAIN))}


@st.composite
def scc_soup(draw):
    """lines of arbitrary code words and texts, italics most of all"""
    words_ = st.one_of(
        st.sampled_from(['91ae', '91ae 91ae', '9120', '9120 9120', '91ae 9120', '9120 91ae', '912f', '9162',
                         '94ad', '942c', '942f', '942f 942f', '9420 9420', '9425', '9429', '94a1', '94ae', '91b9',
                         '97a1', '9723', '8080']),
        st.builds(lambda r, k: cc.PAC[r, k], st.integers(1, 15), st.sampled_from([14, 15, 0, 16, 20, 30])),
        st.lists(st.sampled_from(cc.LETTERS + [0x20, 0x2e, 0x21]), min_size=1, max_size=6).map(pairs),
        st.lists(st.sampled_from(cc.LETTERS + [0x20]), min_size=1, max_size=4).map(pairs))
    lines, t = [], 30
    for _ in range(draw(st.integers(1, 4))):
        ws = draw(st.sampled_from([['94ae', '9420'], ['9429'], ['9425', '94ad'], [], ['9420']]))
        ws = ws + [x for w in draw(st.lists(words_, min_size=1, max_size=14)) for x in w.split()]
        ws = ws + draw(st.sampled_from([['942f'], ['942f', '942f'], ['942c'], []]))
        lines.append((cc.tc(t), ws))
        t += len(ws) + draw(st.sampled_from([20, 60]))
    return {'doc': {'fmt': 'scc', 'text': cc.document(lines), 'ropts': {}}, 'path': draw(st.sampled_from(P_MAIN))}


def pairs(bs):
    bs = [cc.par(b) for b in bs] + [0x80] * (len(bs) % 2)
    return ' '.join('%02x%02x' % (a, b) for a, b in zip(bs[::2], bs[1::2]))


@st.composite
def source(draw):
    """a DFXP or SAMI document whose styled characters are known"""
    fmt = draw(st.sampled_from(['dfxp', 'sami']))
    caps = []
    for _ in range(draw(st.integers(1, 3))):
        parts = []
        for _ in range(draw(st.integers(1, 5))):
            k = draw(st.integers(0, 3))
            parts.append(['br'] if k == 0 else [draw(text()), draw(st.lists(
                st.sampled_from(FLAGS), max_size=2 if fmt == 'sami' else 3, unique=True))])
        parts.append(['end', []])
        caps.append([parts, draw(st.integers(0, 3))])
    return {'fmt': fmt, 'caps': caps, 'path': draw(st.sampled_from(P_MAIN))}


DF = {'italics': 'tts:fontStyle="italic"', 'bold': 'tts:fontWeight="bold"', 'underline': 'tts:textDecoration="underline"'}
SA = {'italics': 'font-style:italic;', 'bold': 'font-weight:bold;', 'underline': 'text-decoration:underline;'}
# values and properties that do not style the flagged ways
OFF = {'dfxp': [[('italics', 'tts:fontStyle="normal"')], [('bold', 'tts:fontWeight="normal"')],
                [('underline', 'tts:textDecoration="none"')], [('', 'tts:fontFamily="bold"'), ('', 'tts:color="red"')],
                [('italics', 'tts:fontStyle="normal"'), ('bold', 'tts:fontWeight="normal"')]],
       'sami': [[('italics', 'font-style:normal;')], [('bold', 'font-weight:normal;')],
                [('underline', 'text-decoration:none;')], [('', 'font-family:bold; color:red;')],
                [('', "background:url('a:b');")]]}
SH = {'italics': 'i', 'bold': 'b', 'underline': 'u'}


def run_source(case, ctx):
    fmt, body, want = case['fmt'], '', []
    for i, (parts, form) in enumerate(case['caps']):
        s, chars = '', []
        for p in parts:
            if p[0] == 'br' and len(p) == 1:
                s += '<br/>'
                continue
            t, fl = p
            x = html.escape(t, quote=False)
            off = OFF[fmt][(len(t) + form) % len(OFF[fmt])]
            if fmt == 'dfxp' and (fl or form == 2):
                x = '<span ' + ' '.join([DF[f] for f in fl] + [v for f, v in off if f not in fl]) + f'>{x}</span>'
            elif not fl and form == 2:
                x = '<span style="' + ''.join(v for _, v in off) + f'">{x}</span>'
            elif fl and (form & 1 or len(fl) > 1):
                x = ('<span style="' + ''.join([v for f, v in off if f not in fl] * (form == 3) + [SA[f] for f in fl])
                     + f'">{x}</span>')
            elif fl:
                x = f'<{SH[fl[0]]}>{x}</{SH[fl[0]]}>'
            s += x
            chars += [(ch, tuple(sorted(fl))) for ch in t if not ch.isspace()]
        want.append(chars)
        body += (f'<p begin="00:00:{i:02d}.000" end="00:00:{i:02d}.900">{s}</p>\n' if fmt == 'dfxp'
                 else f'<SYNC start="{i * 1000}"><P class="ENCC">{s}</P></SYNC>\n')
    if fmt == 'dfxp':
        text_ = ('<?xml version="1.0" encoding="utf-8"?><tt xmlns="http://www.w3.org/ns/ttml" '
                 'xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en"><body><div>\n' + body +
                 '</div></body></tt>')
    else:
        text_ = ('<SAMI><HEAD><STYLE TYPE="text/css"><!--\nP { margin-left: 1%; }\n.ENCC {Name: English; lang: en; '
                 'SAMI_Type: CC;}\n--></STYLE></HEAD><BODY>\n' + body + '</BODY></SAMI>')
    cs = writers.reader(fmt).read(text_)
    same({'en': want}, marks(cs, FLAGS), fmt + ' reader', document=text_)
    run({'doc': {'fmt': fmt, 'text': text_, 'ropts': {}}, 'path': case['path']}, ctx)


FACETS = [
    Facet('spans', lambda: api(P_MAIN), run, quick=2600),
    Facet('layouts', lambda: api(P_MAIN, lays=True), run, quick=1600),
    Facet('classes', lambda: api(P_CLASS[:3], classes=True), run, quick=800),
    Facet('sheet-classes', lambda: api(P_CLASS[3:], classes='flat'), run, quick=500),
    Facet('source', source, run_source, quick=1000),
    Facet('documents', document, run, quick=1400),
    Facet('scc', scc_soup, run, quick=2000),
]
_ = sets
