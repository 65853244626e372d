"""C07: DFXP output is well-formed XML and internally consistent."""
from pbt import big, docs, model, sets, writers
from pbt.core import Enum, Facet, check, fail
from pbt.gen import st

PROPERTY = 'C07'
RULE = ('A case is a caption set (API-built from a spec with balanced, possibly nested style nodes, layouts '
        'at every level, hostile style values, class names, languages; or read by one of the six readers '
        'from a generated document) x one of the three DFXP writers x options x force. Its output is parsed '
        'by lxml without recovery and the document structure and every id and reference is checked. '
        'Non-trivial: the set has a style, a layout or a markup metacharacter.')
ASSUMPTIONS = [
    'texts, style values, class names and language codes are printable Unicode strings',
    'fit_to_screen with relativize off is only judged on relative layouts (the code documents that '
    'absolute ones must be relativized first and raises ValueError)',
    'sets for which the writer refuses a missing video size (RelativizationError) are C13\'s subject',
]
TT = '{http://www.w3.org/ns/ttml}'
XML = '{http://www.w3.org/XML/1998/namespace}'
WRITERS = ['dfxp', 'legacy', 'single', 'dfxp']


def expected_spans(caps, merged):
    out = []
    for c in caps:
        k = (c.start, c.end)
        if merged and out and out[-1] == k:
            continue
        out.append(k)
    return out


def inspect(out, langs, spans):
    from lxml import etree
    check(isinstance(out, str), 'output is not a string', got=type(out))
    try:
        root = etree.fromstring(out.encode('utf-8'), etree.XMLParser(recover=False, resolve_entities=False))
    except etree.XMLSyntaxError as e:
        fail(f'output is not well-formed XML: {e}', output=out)
    check(root.tag == TT + 'tt', 'root is not tt in the TTML namespace', tag=root.tag)
    check(all(e.tag.startswith(TT) for e in root.iter(etree.Element)),
          'element outside the TTML namespace', tags=sorted({e.tag for e in root.iter(etree.Element)}))
    divs = root.findall(f'{TT}body/{TT}div')
    check(len(divs) == len(root.findall(f'.//{TT}div')), 'div outside body', output=out)
    check([d.get(XML + 'lang') for d in divs] == langs, 'one div per written language',
          got=[d.get(XML + 'lang') for d in divs], want=langs, output=out)
    for d, sp in zip(divs, spans):
        ps = d.findall(f'{TT}p')
        check(len(ps) == len(sp) == len(d.findall(f'.//{TT}p')), 'one p per caption', got=len(ps),
              want=len(sp), output=out)
        for p in ps:
            check(p.get('begin') and p.get('end'), 'p without begin or end', output=out)
    ids = [e.get(XML + 'id') for e in root.iter(etree.Element) if e.get(XML + 'id') is not None]
    check(len(ids) == len(set(ids)), 'ids are not unique', ids=ids, output=out)
    head = root.find(f'{TT}head')
    sdefs = [e.get(XML + 'id') for e in head.iter(TT + 'style')]
    rdefs = [e.get(XML + 'id') for e in head.iter(TT + 'region')]
    refs = set()
    for e in root.iter(etree.Element):
        s, r = e.get('style'), e.get('region')
        if s is not None:
            for one in s.split() or [s]:
                check(sdefs.count(one) == 1, f'style reference {one!r} has {sdefs.count(one)} definitions',
                      output=out)
        if r is not None:
            check(rdefs.count(r) == 1, f'region reference {r!r} has {rdefs.count(r)} definitions', output=out)
            refs.add(r)
    check(set(rdefs) == refs, 'regions defined and referenced differ', defined=rdefs, referenced=sorted(refs),
          output=out)
    return root


def run(case, ctx):
    from pycaption.exceptions import RelativizationError
    cs = build(case, ctx)
    wopts = dict(case['opts'])
    langs = cs.get_languages()
    w, force = case['writer'], case['force']
    if w == 'legacy':
        wopts = {}
    try:
        wr = writers.make(w, wopts)
        if case.get('before') is not None:
            wr.write(cs if case['before'] == 'same' else model.mk_set(case['before']))
        out = wr.write(cs, force) if force is not None else wr.write(cs)
    except RelativizationError:
        ctx.require(False, 'writer refused to relativize')
    except ValueError as e:
        ctx.require(not (wopts.get('relativize') is False and wopts.get('fit_to_screen', True)),
                    'fit to screen of absolute units')
        raise e
    if force and force in langs:
        want = [force]
    elif force and w == 'legacy':
        want = langs[-1:]
    else:
        want = langs
    inspect(out, want, [expected_spans(cs.get_captions(lg), w != 'dfxp') for lg in want])
    ctx.label('writer ' + w)
    if wopts.get('write_inline_positioning'):
        ctx.label('inline positioning')
    if force is not None:
        ctx.label('forced language')


def build(case, ctx):
    if 'set' in case:
        s = case['set']
        cs = model.mk_set(s)
        ctx.label('api')
        lays = [lg[1].get('layout') for lg in s['langs']] + [c.get('layout') for lg in s['langs'] for c in lg[1]['caps']]
        rich = any(lays) or s['styles'] or any(
            n[0] == 's' or (n[0] == 't' and any(x in n[1] for x in '&<>"')) for lg in s['langs']
            for c in lg[1]['caps'] for n in c['nodes'])
        if not rich:
            ctx.trivial()
        if s['styles']:
            ctx.label('styles')
        if any(lays):
            ctx.label('layouts')
        if not s['langs']:
            ctx.label('no language')
        return cs
    ctx.label('reader ' + case['doc']['fmt'])
    try:
        return docs.read(case['doc'])
    except Exception as e:  # noqa: B902   reading is C01/C04/C20's subject
        ctx.require(False, f'reader refused the document: {type(e).__name__}')


@st.composite
def api_case(draw):
    s = draw(sets.caption_set())
    langs = [lg[0] for lg in s['langs']]
    return {'set': s, 'writer': draw(st.sampled_from(WRITERS)), 'opts': draw(sets.wopts(inline=True)),
            'force': draw(st.sampled_from([None, None, '', 'fr', 'zz'] + langs))}


@st.composite
def read_case(draw):
    return {'doc': draw(docs.doc()), 'writer': draw(st.sampled_from(WRITERS)),
            'opts': draw(sets.wopts(inline=True)),
            'force': draw(st.sampled_from([None, None, None, 'fr', 'en', 'zz']))}


@st.composite
def chars_case(draw):
    """one character at every string position of a set"""
    from pbt.gen import printable_chars
    c = draw(st.one_of(printable_chars(), st.sampled_from(list('&<>"\'\\%;#]!'))))
    s = 'a' + c if draw(st.booleans()) else c
    sty = {'color': s, 'font-family': s, 'font-size': s, 'text-align': s, 'display-align': s, 'class': s}
    lay = {'a': ['left', 'top']}
    spec = {'langs': [[s, {'caps': [{'s': 0, 'e': 1000000, 'style': sty, 'layout': lay, 'nodes': [
        ['t', s], ['s', True, sty, lay], ['t', s, lay], ['b'], ['s', False, sty, lay]]}]}]],
        'styles': {s: {'color': s, 'font-family': s}}}
    return {'set': spec, 'writer': draw(st.sampled_from(WRITERS)), 'opts': {'write_inline_positioning': True}
            if draw(st.booleans()) else {}, 'force': draw(st.sampled_from([None, s]))}


@st.composite
def reuse_case(draw):
    """a second write on a writer object"""
    c = draw(api_case())
    c['before'] = draw(st.one_of(st.just('same'), sets.caption_set()))
    return c


def long(tier):
    """a region of its own for each of many captions"""
    for w in ('dfxp', 'single', 'legacy'):
        for n in (12, 130):
            caps = big.caps(f'c07{n}', n)
            for i, c in enumerate(caps):
                c['layout'] = {'o': [[str(i % 90), '%'], [str(i // 3), '%']]}
            yield {'set': {'langs': [['en', {'caps': caps}]], 'styles': {f's{i}': {'color': f'c{i}'} for i in range(n)}},
                   'writer': w, 'opts': {}, 'force': ''}


FACETS = [
    Facet('api', api_case, run, quick=3000),
    Facet('read', read_case, run, quick=2600),
    Facet('chars', chars_case, run, quick=1600),
    Facet('reuse', reuse_case, run, quick=1000),
    Enum('long', long, run, hang_s=60),
]
