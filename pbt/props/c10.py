"""C10: reading depends on the document and the options only, and its results are isolated."""
from pbt import docs, model, worker, writers
from pbt.core import Enum, Facet, check
from pbt.gen import st
from pbt.worker import outcome

PROPERTY = 'C10'
RULE = ('A case is 1-4 generated documents (all six formats, some cut or damaged so that reading fails) and '
        'a history of 2-8 reads on new and used reader objects, writes of the sets read and edits of them. '
        'Each read is compared, as a deep dump, with the same read in a process that did nothing before and '
        'has another hash seed; after every operation all sets read so far except the edited one must be as '
        'they were. Non-trivial: two reads and an edit, a write or a used reader.')
ASSUMPTIONS = [
    'geometry objects are values (never edited in place, only replaced)',
    'an exception counts as a result: its type and text have to be the same',
]
SEEDS = (1, 4242, 77)
EDITS = ['add style', 'style dict', 'caption style', 'node text', 'node append', 'node style', 'times', 'layout',
         'language layout', 'set layout', 'drop caption', 'captions', 'adjust', 'node layout', 'append caption',
         'clear nodes', 'new language', 'set styles', 'style sheet']


def edit(cs, kind, i):
    import pycaption
    from pycaption.geometry import Layout, Alignment
    lay = Layout(alignment=Alignment.from_horizontal_and_vertical_align('right', 'before'))
    langs = cs.get_languages()
    lg = langs[i % len(langs)]
    caps = cs.get_captions(lg)
    c = caps[i % len(caps)] if len(caps) else None
    if kind == 'add style':
        cs.add_style('edited%d' % i, {'color': 'blue'})
    elif kind == 'style sheet':
        cs.add_style('p', {'lang': 'zz', 'margin-top': '1%', 'text-align': 'right'})
    elif kind == 'set styles':
        cs.set_styles({'x': {'y': 'z'}})
    elif kind == 'style dict':
        for _, v in cs.get_styles():
            v['edited'] = 'yes'
    elif kind == 'language layout':
        cs.set_layout_info(lg, lay)
    elif kind == 'set layout':
        cs.layout_info = lay
    elif kind == 'captions':
        cs.set_captions(lg, pycaption.CaptionList([]))
    elif kind == 'new language':
        cs.set_captions('zz', pycaption.CaptionList([pycaption.Caption(
            0, 1, [pycaption.CaptionNode.create_text('zz')])]))
    elif kind == 'adjust':
        cs.adjust_caption_timing(offset=1000000, rate_skew=1.1)
    elif c is None:
        return
    elif kind == 'caption style':
        c.style['color'] = 'edited'
        c.style['italics'] = True
    elif kind == 'node text':
        for n in c.nodes:
            if n.type_ == n.TEXT:
                n.content = 'edited'
    elif kind == 'node style':
        for n in c.nodes:
            if isinstance(n.content, dict):
                n.content['edited'] = True
    elif kind == 'node append':
        c.nodes.append(pycaption.CaptionNode.create_text('edited'))
    elif kind == 'clear nodes':
        c.nodes.clear()
    elif kind == 'times':
        c.start, c.end = 12, 34
    elif kind == 'layout':
        c.layout_info = lay
    elif kind == 'node layout':
        for n in c.nodes:
            n.layout_info = lay
    elif kind == 'drop caption':
        del caps[0]
    elif kind == 'append caption':
        caps.append(pycaption.Caption(0, 1, [pycaption.CaptionNode.create_text('new')]))


def run(case, ctx):
    ds = case['docs']
    readers, got, dumps, first = {}, [], [], {}
    reads = others = 0
    for op in case['ops']:
        touched = None
        if op[0] == 'read':
            k = op[1] % len(ds)
            d = ds[k]
            key = d['fmt'] + repr(d.get('iopts'))
            if op[2] and key in readers:
                r = readers[key]
                others += 1
                ctx.label('reader used before')
            else:
                r = readers[key] = writers.reader(d['fmt'], d.get('iopts'))
            made = []

            def go():
                cs = docs.read(d, r)
                made.append(cs)
                return model.d_set(cs)
            out = outcome(go)
            reads += 1
            if k not in first:
                seed = SEEDS[(len(first) + len(d['text'])) % len(SEEDS)]
                first[k] = worker.ask(seed, {'op': 'read', 'doc': d})['out']
            ctx.label(f'{d["fmt"]} {out[0]}')
            check(same(out, first[k]), 'reading depends on what was done before', document=d['text'],
                  fmt=d['fmt'], options=[d.get('iopts'), d['ropts']], alone=first[k], here=out, ops=case['ops'])
            if made:
                got.append(made[0])
                dumps.append(out[1])
        elif got and op[0] == 'edit':
            touched = op[1] % len(got)
            edit(got[touched], EDITS[op[2] % len(EDITS)], op[3])
            others += 1
        elif got and op[0] == 'write':
            k = op[1] % len(got)
            w = writers.ALL8[op[2] % 8]
            outcome(lambda: writers.make(w, {} if w == 'legacy' else {'video_width': 640, 'video_height': 360}
                                         ).write(got[k]))
            others += 1
        for k, cs in enumerate(got):
            if k != touched:
                check(model.d_set(cs) == dumps[k], f'{op} changed another caption set', set=k,
                      before=dumps[k], after=model.d_set(cs), ops=case['ops'])
            else:
                dumps[k] = model.d_set(cs)
    if reads < 2 or not others:
        ctx.trivial()


def same(a, b):
    if a[0] != 'ok' or b[0] != 'ok':
        return a == b
    return model.plain(a[1]) == model.plain(b[1])


@st.composite
def doc(draw):
    d = draw(docs.doc())
    if d['fmt'] == 'dfxp' and draw(st.integers(0, 3)) == 0:
        d['iopts'] = {'read_invalid_positioning': True}
    if d['fmt'] == 'webvtt' and draw(st.integers(0, 3)) == 0:
        d['iopts'] = draw(st.sampled_from([{'ignore_timing_errors': False}, {'time_shift_milliseconds': 1000}]))
    k = draw(st.integers(0, 9))
    t = d['text']
    if k == 0:
        d['text'] = t[:draw(st.integers(0, len(t)))]
    elif k == 1:
        i = draw(st.integers(0, max(0, len(t) - 1)))
        d['text'] = t[:i] + draw(st.sampled_from(['<', '&', '\n\n', '94ae 94ae', 'x', ':', '{', '</p>'])) + t[i + 2:]
    return d


@st.composite
def history(draw):
    n = draw(st.integers(1, 4))
    ds = []
    for _ in range(n):
        if ds and draw(st.integers(0, 2)) == 0:      # the same format again
            d = draw(docs.doc([ds[-1]['fmt']]))
            if ds[-1].get('iopts'):
                d['iopts'] = ds[-1]['iopts']
            ds.append(d)
        else:
            ds.append(draw(doc()))
    op = st.one_of(
        st.tuples(st.just('read'), st.integers(0, n - 1), st.booleans()),
        st.tuples(st.just('read'), st.integers(0, n - 1), st.just(True)),
        st.tuples(st.just('edit'), st.integers(0, 7), st.integers(0, len(EDITS) - 1), st.integers(0, 5)),
        st.tuples(st.just('write'), st.integers(0, 7), st.integers(0, 7))).map(list)
    return {'docs': ds, 'ops': [['read', 0, False]] + draw(st.lists(op, min_size=1, max_size=8))
            + [['read', draw(st.integers(0, n - 1)), True]]}


TT = ('<?xml version="1.0" encoding="utf-8"?><tt xmlns="http://www.w3.org/ns/ttml" '
      'xmlns:tts="http://www.w3.org/ns/ttml#styling"%s><head><styling>%s</styling><layout>%s</layout></head>'
      '<body%s>%s</body></tt>')
P1 = '<p begin="00:00:01.000" end="00:00:02.000"%s>%s</p>'
SM = '<SAMI><HEAD><STYLE TYPE="text/css"><!--%s--></STYLE></HEAD><BODY>%s</BODY></SAMI>'
POP = 'Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 94ae 9420 9420 %s 942f 942f\n\n'
FIXED = {
    'srt': [('1\n00:00:01,000 --> 00:00:02,000\na\n\n', {}), ('1\n00:00:01,000 --> 00:00:02,000\na\n\n', {'lang': 'fr'}),
            ('7\n00:00:03,000 --> 00:00:04,000\nx\ny\n\n8\n00:00:05,000 --> 00:00:06,000\nz', {}),
            ('1\nno times\na\n', {}), ('1\n00:00:01,000 --> 00:00:02,000\n\n', {})],
    'webvtt': [('WEBVTT\n\n00:01.000 --> 00:02.000 align:right line:10%\n<v Mary>a\n', {}),
               ('WEBVTT\n\n00:01.000 --> 00:02.000\na\n', {}), ('WEBVTT\n\n00:01.000 --> 00:02.000\na\n', {'lang': 'fr'}),
               ('WEBVTT\n\n00:09.000 --> 00:02.000\na\n\n00:01.000 --> 00:02.000\nb\n', {}), ('WEBVTT\n\n00:01 --> x\na\n', {}),
               ('WEBVTT\n\n', {})],
    'microdvd': [('{1}{1}50\n{50}{100}a|b\n', {}), ('{25}{50}a\n', {}), ('{0}{0}23.976\n{25}{50}{y:i}a\n', {'lang': 'fr'}),
                 ('{1}{1}x\n{25}{50}a\n', {}), ('25 50 a\n', {}), ('{1}{1}30\n', {})],
    'dfxp': [(TT % (' xml:lang="en"', '', '', '', '<div>' + P1 % ('', 'a') + '</div>'), {}),
             (TT % (' xml:lang="fr" tts:extent="640px 360px"', '<style xml:id="s1" tts:color="red" tts:origin="10% 20%"/>',
                    '<region xml:id="r1" style="s1" tts:extent="50% 30%" tts:textAlign="right"/>', ' region="r1"',
                    '<div>' + P1 % (' style="s1"', '<span tts:fontStyle="italic">a</span><br/>b') + '</div>'), {}),
             (TT % ('', '<style xml:id="s1" tts:fontStyle="italic"/><style xml:id="s2" style="s1"/>',
                    '<region xml:id="r1" tts:displayAlign="before" tts:padding="1% 2%"/>', '',
                    '<div xml:lang="de">' + P1 % (' region="r1"', 'a') + '</div><div>' + P1 % (' style="s2"', 'b') + '</div>'), {}),
             (TT % ('', '', '', '', '<div><p>a</p></div>'), {}), (TT % ('', '', '', '', ''), {}),
             (TT % ('', '', '<region xml:id="r1" tts:origin="x y"/>', '', '<div>' + P1 % (' region="r1"', 'a') + '</div>'), {})],
    'sami': [(SM % ('\n.ENCC {Name: English; lang: en;}\n', '<SYNC start="1000"><P class="ENCC">a</P></SYNC>'), {}),
             (SM % ('\nP {margin-left: 5%; text-align: right;}\n.ENCC {Name: English; lang: en; margin-top: 3%;}\n'
                    '.FRCC {Name: French; lang: fr;}\n.x {color: red;}\n',
                    '<SYNC start="1000"><P class="FRCC"><i>a<P class="ENCC"><span class="x" style="text-align:left">b</span>'
                    '</SYNC><SYNC start="2000"><P class="ENCC">&nbsp;</P></SYNC>'), {}),
             (SM % ('\n.ENCC {Name: English; lang: de;}\n', '<SYNC start="1000"><P class="ENCC" style="text-align:center">a<br>b</P></SYNC>'
                    '<SYNC start="2000"><P class="ENCC"><u>c'), {}),
             ('<SAMI><BODY><SYNC start="1000"><P>a</P></SYNC></BODY></SAMI>', {}),
             (SM % ('\n.ENCC {Name: English; lang: en;}\n', '<SYNC><P class="ENCC" style="text-align:left"><i>a</P></SYNC>'), {}),
             ('<html><SAMI></SAMI></html>', {}),
             (SM % ('\nP {margin-left: 5x;}\n.ENCC {Name: English; lang: en;}\n', '<SYNC start="1000"><P class="ENCC">a</P></SYNC>'), {})],
    'scc': [(POP % '9470 9470 6162' + '00:00:05:00\t942c 942c\n\n', {}), (POP % '9470 9470 6162', {'offset': 1}),
            (POP % '1340 1340 91ae 91ae 6162' + POP.splitlines()[2] % '9470 6162' + '\n', {'lang': 'fr'}),
            (POP.replace('942f 942f', '') % '9470 9470 91ae 91ae 6162', {}),
            ('Scenarist_SCC V1.0\n\n00:00:01;00\t9425 9425 94ad 94ad 9470 9470 6162\n\n00:00:03;00\t94ad 94ad 9470 9470 6464\n',
             {}),
            ('Scenarist_SCC V1.0\n\n00:00:01;00\t94a7 94a7 94ad 94ad 9470 9470 6162\n\n00:00:03;00\t94ad 94ad 9470 9470 6464\n',
             {'simulate_roll_up': True}),
            ('Scenarist_SCC V1.0\n\n00:00:01;00\t9429 9429 91d0 91d0 91ae 6162\n', {}),
            (POP % ('9470 9470 ' + '6161 ' * 20), {}), ('Scenarist_SCC V1.0\n\nx\t94ae 9420 9470 6162 942f\n', {}),
            ('Scenarist_SCC V1.0\n\n', {}), (POP % '9470 9470 6162 9470 91ae', {'offset': -2})],
}
IOPTS = {'webvtt': [None, {'time_shift_milliseconds': 1500}, {'ignore_timing_errors': False}],
         'dfxp': [None, {'read_invalid_positioning': True}]}


def pairs(tier):
    """every two of the fixed documents of a format, one after the other with one reader, with an edit between"""
    for fmt, texts in FIXED.items():
        for iopts in IOPTS.get(fmt, [None]):
            ds = [dict({'fmt': fmt, 'text': t, 'ropts': o}, **({'iopts': iopts} if iopts else {})) for t, o in texts]
            for i in range(len(ds)):
                for j in range(len(ds)):
                    e = EDITS[(i * len(ds) + j) % len(EDITS)]
                    yield {'docs': [ds[i], ds[j]], 'ops': [
                        ['read', 0, False], ['read', 1, True], ['edit', 0, EDITS.index(e), 0], ['edit', 1, EDITS.index(e), 0],
                        ['write', 0, 2], ['write', 1, 5], ['read', 0, True], ['read', 1, False]]}


FACETS = [
    Enum('pairs', pairs, run),
    Facet('history', history, run, quick=2800),
]
