"""C14: each language's captions stay under their language, in document order."""
import json
import os
import subprocess
import sys

from pbt import big, model, parsers, serial, writers
from pbt.core import VERIF, Enum, Facet, check
from pbt.gen import st

PROPERTY = 'C14'
RULE = ('A case is a set (or document) with 1-4 languages whose cues carry unique texts, with interleaved, coinciding '
        'or disjoint times, and is written by the DFXP, SAMI, WebVTT, SRT and MicroDVD writers and read back, with '
        'every value of the language options. Compared: the languages, their order and the list of (start, text) of '
        'each, in the output (parsed by the harness) and in the set read back; the order of the SYNC blocks. '
        'Non-trivial: two languages with captions at least, or a language option in use.')
ASSUMPTIONS = [
    'names of languages of one set differ in more than case (SAMI class names are case-insensitive)',
    'inline SAMI lang attributes of more than two letters are a known finding; precedence of lang over the class of '
    'another language is not judged',
    'a language without captions is free to be listed or not, and a div nested in another has a language of its own',
    'start times are compared in milliseconds, rounded down (C02 judges precision)',
    'DFXP force= with a language that the set does not have is not judged',
]
MS = 1000
LANGS = ['en', 'en-US', 'en-GB', 'fr', 'de-DE', 'es', 'pt-BR', 'zh-Hans', 'und', 'x1']


# ---------------------------------------------------------------- views
def ms(us):
    return int(us // MS)


def want(spec):
    """[(lang, [(start ms, text)])]"""
    return [(lg, [(ms(c['s']), ' '.join(text_lines(c))) for c in lst['caps']]) for lg, lst in spec['langs']]


def text_lines(c):
    out = ['']
    for n in c['nodes']:
        if n[0] == 't':
            out[-1] += n[1]
        elif n[0] == 'b':
            out.append('')
    return [' '.join(x.split()) for x in out if x.split()]


def got_set(cs):
    return [(lg, [(ms(c.start), ' '.join(model.cap_lines(c))) for c in cs.get_captions(lg)])
            for lg in cs.get_languages()]


def full(x):
    return [(lg, caps) for lg, caps in x if caps]


def same(got, exp, what, order=True, **d):
    g, e = full(got), full(exp)
    check(sorted(lg for lg, _ in g) == sorted(lg for lg, _ in e), f'{what}: other languages', got=got, want=exp, **d)
    for lg, caps in e:
        check(dict(g)[lg] == caps, f'{what}: the captions of a language changed', lang=lg, got=dict(g)[lg],
              want=caps, **d)
    if order:
        check([lg for lg, _ in g] == [lg for lg, _ in e], f'{what}: other order of languages',
              got=[lg for lg, _ in g], want=[lg for lg, _ in e], **d)


# ---------------------------------------------------------------- outputs, parsed by the harness
def view_sami(out, exp):
    """checks the output; [(lang, caps)] in order of first appearance of a paragraph"""
    d = parsers.sami(out)
    langs = parsers.css_langs(d['style'], out)
    last = -1
    found = {}
    for s in d['syncs']:
        check(s['start'] >= last, 'SAMI: the SYNC blocks are not in order of time', output=out)
        last = s['start']
        for p in s['ps']:
            lg = langs.get((p['class'] or '').lower())
            check(lg is not None, 'SAMI: paragraph of no language', cls=p['class'], output=out)
            found.setdefault(lg, [])
            text = ' '.join(' '.join(x.split()) for x in p['lines'] if x.replace('\xa0', ' ').split())
            if text:
                found[lg].append((s['start'], text))
    same(list(found.items()), exp, 'SAMI output', order=False, output=out)
    return list(found.items())


def view_dfxp(out):
    return [(lg, [(ms(c['s']), ' '.join(' '.join(x.split()) for x in c['lines'] if x.split())) for c in ps])
            for lg, ps in parsers.dfxp(out)['divs']]


# ---------------------------------------------------------------- API sets
def run_set(case, ctx):
    spec = case['set']
    exp = want(spec)
    if len(full(exp)) < 2 and not case.get('lang'):
        ctx.trivial()
    cs = model.mk_set(spec)
    before = model.d_set(cs)
    names = [lg for lg, _ in exp]
    w = case['writer']
    lang = case.get('lang')
    ctx.label(w + (' lang' if lang else ''))
    wr = writers.make(w)
    if w == 'sami':
        out = wr.write(cs)
        seen = view_sami(out, exp)
        back = got_set(writers.reader('sami').read(out))
        same(back, [(lg, dict(exp)[lg]) for lg, _ in seen], 'SAMI read back', output=out)
    elif w in ('dfxp', 'single', 'legacy'):
        out = wr.write(cs, lang) if lang else wr.write(cs)
        sel = [(lg, caps) for lg, caps in exp if lg == lang] if lang else exp
        seen = view_dfxp(out)
        same(seen, sel, 'DFXP output', output=out)
        check(len(seen) == len({lg for lg, _ in seen}), 'DFXP: a language twice', output=out)
        if full(sel):
            same(got_set(writers.reader('dfxp').read(out)), sel, 'DFXP read back', output=out)
    elif w == 'webvtt':
        out = wr.write(cs, lang=lang) if lang else wr.write(cs)
        mine = dict(exp).get(lang, []) if lang else exp[0][1]
        got = [(ms(c['s']), ' '.join(' '.join(x.split()) for x in c['lines'] if x.split()))
               for c in parsers.vtt(out)]
        check(got == mine, 'WebVTT output: not the captions of the language', got=got, want=mine, output=out)
    elif w == 'srt':
        got = [[(ms(c[0]), ' '.join(' '.join(x.split()) for x in c[2] if x.split())) for c in part]
               for part in parsers.srt_multi(wr.write(cs))]
        check([x for x in got if x] == [caps for _, caps in full(exp)], 'SRT output: the lists of the languages changed',
              got=got, want=exp)
    elif w == 'microdvd':
        got = [' '.join(x for x in c[2] if x) for c in parsers.mdvd(wr.write(cs))]
        check(got == [t for _, caps in exp for _, t in caps], 'MicroDVD output: other order', got=got, want=exp)
    check(model.d_set(cs) == before, 'the writer changed the set')
    check(cs.get_languages() == names, 'the set lists its languages in another order', got=cs.get_languages())


def run_lang_arg(case, ctx):
    """read(lang=) of the formats of one language"""
    f, lang = case['f'], case['lang']
    cs = model.mk_set({'langs': [['en', case['list']]]})
    doc = writers.make(f).write(cs)
    base = got_set(writers.reader(f).read(doc))
    cs = writers.reader(f).read(doc, lang=lang)
    check(cs.get_languages() == [lang], 'the reader did not use the language named', got=cs.get_languages(), doc=doc)
    check(got_set(cs) == [(lang, base[0][1])], 'the captions depend on the language', got=got_set(cs), doc=doc)


def run_path(case, ctx):
    """a chain of writers and readers"""
    exp = full(want(case['set']))
    if len(exp) < 2:
        ctx.trivial()
    ctx.require(all(len({t for t, _ in caps}) == len(caps) for _, caps in exp),
                'captions of one millisecond: read as overlapping')
    cs = model.mk_set(case['set'])
    ctx.label(' '.join(case['path']))
    for w in case['path']:
        out = writers.make(w).write(cs)
        if w == 'sami':
            seen = view_sami(out, exp)
            exp = [(lg, dict(exp)[lg]) for lg, _ in full(seen)]
            # the first paragraph, blank or not, is the first appearance
        else:
            same(view_dfxp(out), exp, f'{w} output', output=out)
        cs = writers.reader('sami' if w == 'sami' else 'dfxp').read(out)
        same(got_set(cs), exp, f'{w} read back', output=out)


# ---------------------------------------------------------------- documents
def run_dfxp_doc(case, ctx):
    default = case.get('default', 'und')
    doc, exp = dfxp_doc(case)
    merged, all_first, full_first = {}, [], []
    for lg, caps in exp:
        lg = lg if lg is not None else case['tt'] if case['tt'] is not None else default
        merged.setdefault(lg, []).extend(caps)
        if lg not in all_first:
            all_first.append(lg)
        if caps and lg not in full_first:
            full_first.append(lg)
    ctx.require(full_first, 'no captions')
    if len(full_first) < 2 and all(lg for lg, _ in exp):
        ctx.trivial()
    ctx.label('default' if any(lg is None for lg, _ in exp) else 'all named',
              'repeated' if len(merged) < len(exp) else 'distinct')
    if 'default' in case:
        got = [(lg, [tuple(x) for x in caps]) for lg, caps in ask(default, 'dfxp', doc)]
    else:
        got = got_set(writers.reader('dfxp').read(doc))
    same(got, list(merged.items()), 'DFXP', order=False, doc=doc)
    have = [lg for lg, caps in got if caps]
    check(have in (full_first, [lg for lg in all_first if lg in full_first]), 'DFXP: other order of languages',
          got=have, want=full_first, doc=doc)


def dfxp_doc(case):
    divs, exp = [], []
    n = 0
    for lg, times in case['divs']:
        ps, caps = [], []
        for s, e in times:
            ps.append(({'begin': clock(s), 'end': clock(e)}, f'w{n} x'))
            caps.append((s, f'w{n} x'))
            n += 1
        divs.append((lg, {}, ps))
        exp.append((lg, caps))
    doc = serial.dfxp(divs, tt_lang=case['tt'])
    if case.get('nest'):
        # wrap the last div in an outer one of the same name
        i = doc.rindex('<div')
        j = doc.rindex('</div>')
        lg = case['divs'][-1][0]
        doc = doc[:i] + f'<div xml:lang="{lg}">' + doc[i:j] + '</div>' + doc[j:]
    return doc, exp


def clock(t):
    return f'{t // 3600000:02d}:{t // 60000 % 60:02d}:{t // 1000 % 60:02d}.{t % 1000:03d}'


def run_sami_doc(case, ctx):
    default = case.get('default', 'und')
    doc, exp = sami_doc(case, default)
    if len(full(exp)) < 2:
        ctx.trivial()
    ctx.require(full(exp), 'no captions')
    if 'default' in case:
        got = [(lg, [tuple(x) for x in caps]) for lg, caps in ask(default, 'sami', doc)]
    else:
        got = got_set(writers.reader('sami').read(doc))
    if any('lang' in how and len(v) > 2 for _, ps in case['syncs'] for how, v, _ in ps):
        cut = {}
        for t, ps in case['syncs']:
            for how, v, _ in ps:
                if 'lang' in how:
                    assert v not in cut or cut[v] == v[:2]
                    cut[v] = v[:2]
        _, bad = sami_doc(dict(case, syncs=[[t, [[how, cut[v] if 'lang' in how else v, kind] for how, v, kind in ps]]
                                            for t, ps in case['syncs']]), default)
        check(full(got) == full(exp) or full(got) != full(bad), INLINE, got=got, want=exp, doc=doc)
    same(got, exp, 'SAMI', doc=doc)


INLINE = 'SAMI: a lang attribute was cut to its first two letters'
KNOWN = {'sami-inline-lang': lambda facet, case, msg: facet == 'inline-lang' and msg.startswith(INLINE) and any(
    'lang' in how and len(v) > 2 for _, ps in case['syncs'] for how, v, _ in ps)}


def sami_doc(case, default):
    classes = dict(map(tuple, case['classes']))
    exp = {}
    body = ''
    n = 0
    for t, ps in case['syncs']:
        body += f'<SYNC Start={t}>'
        for how, v, kind in ps:
            lg = v if 'lang' in how else classes.get(v, default)
            a = {'': '', 'bare-lang': f' class=bare lang={v}', 'lang-bare': f' lang={v} class=bare',
                 'none-lang': f' Class="nowhere" LANG="{v}"'}.get(how, f' {how}={v}')
            text = '&nbsp;' if kind == 'blank' else f'w{n} <br> x' if kind == 'br' else f'<i>w{n}</i> x'
            n += 1
            exp.setdefault(lg, [])
            if kind != 'blank':
                exp[lg].append((t, f'w{n - 1} x'))
            body += f'<P{a}>{text}' + ('</P>' if case['close'] else '')
        body += '</SYNC>\n' if case['close'] else '\n'
    head = serial.SAMI_HEAD.format(classes='\n'.join(
        f'.{c} {{ Name: {c}; lang: {lg}; SAMI_Type: CC; }}' for c, lg in case['classes'])
        + '\n.bare { color: red; }')
    return head + body + '</BODY>\n</SAMI>\n', list(exp.items())


# ---------------------------------------------------------------- the configured default
SCRIPT = '''
import json, sys
sys.path.insert(0, %r)
import pbt.core
from pbt import writers
from pbt.props import c14
for line in sys.stdin:
    f, doc = json.loads(line)
    try:
        print(json.dumps(['ok', c14.got_set(writers.reader(f).read(doc))]), flush=True)
    except Exception as e:
        print(json.dumps(['raised', repr(e)]), flush=True)
'''
_servers = {}


def ask(default, f, doc):
    """reads the document in a process with this configured default language"""
    key = (os.getpid(), default)
    if key not in _servers:
        env = dict(os.environ, PYCAPTION_DEFAULT_LANG=default)
        _servers[key] = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', SCRIPT % VERIF], env=env, text=True,
                                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=VERIF)
    p = _servers[key]
    p.stdin.write(json.dumps([f, doc]) + '\n')
    p.stdin.flush()
    ans = json.loads(p.stdout.readline())
    check(ans[0] == 'ok', 'the reader raised with another default language', error=ans[1], doc=doc)
    return ans[1]


# ---------------------------------------------------------------- generators
@st.composite
def times(draw, n, grid):
    """n non-overlapping spans; many of the instants are on a common grid"""
    t = draw(st.integers(0, 6)) * grid
    out = []
    for _ in range(n):
        dur = draw(st.sampled_from([grid, grid, 2 * grid, 3 * grid, grid // 2, 1, 2]))
        out.append((t, t + dur))
        t += dur + draw(st.sampled_from([0, 0, grid, 2 * grid, 5 * grid, grid // 2, 1]))
    return out


@st.composite
def the_set(draw, max_caps=5, lo=0):
    names = draw(st.lists(st.sampled_from(LANGS), min_size=1, max_size=4, unique=True))
    grid = draw(st.sampled_from([1000 * MS, 1000 * MS, 40 * MS, 3 * MS, 1500]))
    classed = draw(st.integers(0, 3)) == 0
    langs, styles = [], {}
    for i, lg in enumerate(names):
        n = draw(st.integers(lo, max_caps))
        caps = []
        for j, (s, e) in enumerate(draw(times(n, grid))):
            ns = [['t', f'{lg} {i}.{j}']]
            if draw(st.integers(0, 5)) == 0:
                ns += [['b'], ['t', draw(st.sampled_from(['x', 'two words']))]]
            c = {'s': s, 'e': e, 'nodes': ns}
            if classed and draw(st.booleans()):
                c['style'] = {'class': draw(st.sampled_from(['cca', 'ccb', f'cc{i}', f'cc{i}', 'none']))}
            caps.append(c)
        langs.append([lg, {'caps': caps}])
        if classed:
            styles[f'cc{i}'] = {'lang': lg, 'color': 'red'}
    if classed:
        styles['cca'] = {'lang': names[0]}
        styles['ccb'] = {'color': 'blue'}
    if not any(lst['caps'] for _, lst in langs):
        langs[-1][1]['caps'].append({'s': 1000 * MS, 'e': 2000 * MS, 'nodes': [['t', 'only']]})
    return {'langs': langs, 'styles': styles}


@st.composite
def set_case(draw):
    c = {'set': draw(the_set()), 'writer': draw(st.sampled_from(
        ['sami', 'sami', 'sami', 'sami', 'dfxp', 'webvtt', 'single', 'legacy', 'srt', 'microdvd']))}
    if c['writer'] not in ('sami', 'srt', 'microdvd') and draw(st.integers(0, 2)):
        names = [lg for lg, _ in c['set']['langs']]
        c['lang'] = draw(st.sampled_from(names + (['zz'] if c['writer'] == 'webvtt' else [])))
    return c


@st.composite
def path_case(draw):
    return {'set': draw(the_set(4)), 'path': draw(st.lists(st.sampled_from(['sami', 'dfxp', 'legacy', 'sami']),
                                                           min_size=2, max_size=4))}


@st.composite
def lang_arg(draw):
    spec = draw(the_set(4, 1))
    f = draw(st.sampled_from(['srt', 'webvtt', 'microdvd', 'scc']))
    lst = {'caps': [dict(c, s=c['s'] * 4 + 5000000 * (i + 1), e=c['e'] * 4 + 5000000 * (i + 1), style={},
                         nodes=[['t', f'w{i} x']])
                    for i, c in enumerate(spec['langs'][0][1]['caps'])]}
    if not lst['caps']:
        lst['caps'] = [{'s': 5000000, 'e': 6000000, 'nodes': [['t', 'w x']]}]
    return {'f': f, 'list': lst, 'lang': draw(st.sampled_from(LANGS + ['', 'Klingon']))}


@st.composite
def dfxp_case(draw):
    c = {'tt': draw(st.sampled_from([None, None, 'en', 'fr', 'und', 'xx-YY'])), 'divs': []}
    pool = draw(st.lists(st.sampled_from(LANGS), min_size=1, max_size=3)) + [None]
    for _ in range(draw(st.integers(1, 5))):
        n = draw(st.integers(0, 3))
        c['divs'].append([draw(st.sampled_from(pool)), draw(times(n, 1000))])
    if c['divs'][-1][0] and draw(st.integers(0, 3)) == 0:
        c['nest'] = True
    return c


@st.composite
def sami_case(draw, inline=('en', 'fr', 'de', 'xx')):
    langs = draw(st.lists(st.sampled_from(LANGS), min_size=1, max_size=3))
    classes = [[f'{draw(st.sampled_from(["cc", "Sub", "X", "lang-"]))}{i}', lg] for i, lg in enumerate(langs)]
    pool = [['class', c] for c, _ in classes] * 2 + [['class', 'nowhere'], ['', '']]
    attr = draw(st.lists(st.sampled_from(inline), max_size=2))
    pool += [['lang', x] for x in attr]
    # a class that has a style, or none, but no language: the attribute or the default decides
    pool += [[how, x] for x in attr for how in ('bare-lang', 'lang-bare', 'none-lang')] + [['class', 'bare']]
    t, syncs = draw(st.integers(0, 3)) * 500, []
    for _ in range(draw(st.integers(1, 7))):
        ps = [draw(st.sampled_from(pool)) + [draw(st.sampled_from(['br', 'i', 'i', 'blank']))]
              for _ in range(draw(st.integers(1, 4)))]
        syncs.append([t, ps])
        t += draw(st.sampled_from([1, 500, 1000, 3000, 10000]))
    return {'classes': classes, 'syncs': syncs, 'close': draw(st.booleans())}


@st.composite
def default_case(draw):
    c = draw(st.one_of(dfxp_case(), sami_case()))
    c['default'] = draw(st.sampled_from(['en', 'x-unknown']))
    return c


def run_default(case, ctx):
    (run_dfxp_doc if 'divs' in case else run_sami_doc)(case, ctx)


def slots(tier):
    """every placement of the cues of a second language against those of a first, on a small grid"""
    def lists(k, span):
        # all lists of at most k spans within span
        out = [[]]
        for n in range(k):
            out += [x + [(a, b)] for x in [y for y in out if len(y) == n] for a in range(x[-1][1] if x else 0, span)
                    for b in range(a + 1, span + 1)]
        return out
    k, span = (2, 4) if tier == 'quick' else (2, 5)
    both = lists(k, span)
    for a in both:
        for b in both:
            if a or b:
                yield {'set': {'langs': [[lg, {'caps': [{'s': s * 1000 * MS, 'e': e * 1000 * MS, 'nodes': [
                    ['t', f'{lg}{j}']]} for j, (s, e) in enumerate(x)]}] for lg, x in (('en', a), ('fr', b))]},
                    'writer': 'sami'}
    third = lists(1, 3)
    for a in third + [[(0, 1), (2, 3)]]:
        for b in third + [[(0, 1), (2, 3)], [(1, 2), (2, 3)]]:
            for c in third + [[(0, 1), (1, 2)], [(0, 1), (2, 3)]]:
                if a or b or c:
                    yield {'set': {'langs': [[lg, {'caps': [{'s': s * 1000 * MS, 'e': e * 1000 * MS, 'nodes': [
                        ['t', f'{lg}{j}']]} for j, (s, e) in enumerate(x)]}]
                        for lg, x in (('en', a), ('fr', b), ('de', c))]}, 'writer': 'sami'}


def long(tier):
    for k, w in enumerate(['dfxp', 'sami', 'srt', 'webvtt', 'microdvd']):
        yield {'set': {'langs': [[lg, {'caps': big.caps(f'{k}{lg}', 120, text=lambda r, i, lg=lg: [['t', f'{lg}{i}']])}]
                                 for lg in ('fr', 'en', 'de-DE')]}, 'writer': w}
    r = big.pick('divs')
    yield {'tt': None, 'divs': [[r.choice(['en', 'fr', 'de-DE', None]), [[1000 * i, 1000 * i + 900] for i in range(9)]]
                                for _ in range(40)]}
    yield {'classes': [['cc0', 'en'], ['cc1', 'fr'], ['cc2', 'de-DE']], 'close': True, 'syncs': [
        [700 * i, [['class', f'cc{r.randrange(3)}', r.choice(['br', 'i', 'blank'])] for _ in range(r.randrange(1, 4))]]
        for i in range(250)]}


def run_long(case, ctx):
    (run_set if 'set' in case else run_dfxp_doc if 'divs' in case else run_sami_doc)(case, ctx)


FACETS = [
    Enum('slots', slots, run_set),
    Facet('set', set_case(), run_set, quick=3000, thorough=60000),
    Facet('path', path_case(), run_path, quick=700, thorough=20000),
    Facet('lang-arg', lang_arg(), run_lang_arg, quick=500, thorough=5000),
    Facet('dfxp-doc', dfxp_case(), run_dfxp_doc, quick=1500, thorough=30000),
    Facet('sami-doc', sami_case(), run_sami_doc, quick=2500, thorough=50000),
    Facet('inline-lang', sami_case(['en-US', 'en-GB', 'fr', 'pt-BR']), run_sami_doc, quick=200, thorough=2000),
    Facet('default', default_case(), run_default, quick=400, thorough=5000),
    Enum('long', long, run_long, hang_s=60),
]
