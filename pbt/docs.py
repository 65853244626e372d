"""Generated source documents of the six input formats (shared by C07, C09, C10, C20)."""
from pbt import scc608 as cc
from pbt import serial
from pbt.core import fail  # noqa: F401
from pbt.gen import WORDS, hostile_line, st, words

FORMATS = ['srt', 'webvtt', 'dfxp', 'sami', 'microdvd', 'scc']
LANGS = ['en', 'en-US', 'fr', 'de', 'pt-BR', 'x']


def line():
    return st.one_of(words(), words(), hostile_line(4, exclude=['-->', '{', '}', '|']))


@st.composite
def times(draw, n, unit=1):
    """n sorted cues (start, end) in ms"""
    t = draw(st.integers(0, 5)) * 500
    out = []
    for _ in range(n):
        k = draw(st.integers(0, 7))
        d = draw(st.sampled_from([500, 1000, 1500, 2345, 80]))
        if out and k == 0:
            out.append(out[-1])                      # concurrent
            continue
        out.append((t, t + d))
        t += d + draw(st.sampled_from([0, 0, 40, 200, 1000]))
    return out


def ck(ms, sep):
    return f'{ms // 3600000:02d}:{ms // 60000 % 60:02d}:{ms // 1000 % 60:02d}{sep}{ms % 1000:03d}'


@st.composite
def srt(draw):
    cues = draw(times(draw(st.integers(1, 4))))
    body = [draw(st.lists(line(), min_size=1, max_size=3)) for _ in cues]
    return serial.srt([(ck(s, ','), ck(e, ','), b) for (s, e), b in zip(cues, body)])


VTT_SET = ['', '', ' align:left', ' line:10%', ' position:20%,line-left align:start size:50%',
           ' line:0 position:5%', ' region:r1', ' vertical:rl', ' align:center line:90%']
VTT_TAG = ['<i>a</i>', '<b>b c</b>', '<v Bob>hey</v>', '<c.red>x</c>', '<u>d</u>', '<00:01.000>']


@st.composite
def webvtt(draw):
    blocks = []
    if draw(st.integers(0, 3)) == 0:
        blocks.append((['NOTE hi'], 1))
    if draw(st.integers(0, 4)) == 0:
        blocks.append((['STYLE', '::cue { color: red }'], 1))
    for s, e in draw(times(draw(st.integers(1, 4)))):
        ls = [draw(st.one_of(words(), st.sampled_from(VTT_TAG), line())) for _ in range(draw(st.integers(1, 3)))]
        b = [f"{ck(s, '.')} --> {ck(e, '.')}{draw(st.sampled_from(VTT_SET))}"] + ls
        if draw(st.integers(0, 3)) == 0:
            b.insert(0, draw(st.sampled_from(['1', 'intro', 'c-2'])))
        blocks.append((b, 1))
    return serial.vtt(blocks)


STYLE_ATTR = [('tts:color', ['red', '#ff0000', 'a "q" & <b>', "it's"]),
              ('tts:fontFamily', ['Arial', '"Times New", serif', 'A&B']),
              ('tts:fontSize', ['1c', '100%', '18px']), ('tts:fontStyle', ['italic', 'normal']),
              ('tts:fontWeight', ['bold']), ('tts:textDecoration', ['underline', 'none']),
              ('tts:textAlign', ['left', 'center', 'right', 'start', 'end'])]
POS_ATTR = [('tts:origin', ['10% 20%', '0% 0%', '5% 85%', '80px 60px']),
            ('tts:extent', ['80% 10%', '50% 50%', '100% 100%']),
            ('tts:padding', ['1%', '1% 2%', '1% 2% 3%', '1% 2% 3% 4%']),
            ('tts:displayAlign', ['before', 'center', 'after']),
            ('tts:textAlign', ['left', 'center', 'right'])]
IDS = ['s1', 'basic', 'p', 'bottom', 'r0', 'r1', 'default', 'my.style', 'a-b', 'É1', 'x y', '1st', 'a"b',
       'q&a', '<i>', 'ſ', 'span', 'span:hover']


@st.composite
def attrs(draw, table, lo=0, hi=3):
    ks = draw(st.lists(st.sampled_from(range(len(table))), min_size=lo, max_size=hi, unique=True))
    return {table[k][0]: draw(st.sampled_from(table[k][1])) for k in ks}


@st.composite
def dfxp_inline(draw, depth, sids, rids):
    out = ''
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 6))
        if k == 0:
            out += '<br/>'
        elif k in (1, 2) and depth:
            a = draw(attrs(STYLE_ATTR, 0, 2))
            if sids and draw(st.integers(0, 2)) == 0:
                a['style'] = draw(st.sampled_from(sids))
            if rids and draw(st.integers(0, 3)) == 0:
                a['region'] = draw(st.sampled_from(rids))
            out += ('<span' + ''.join(f' {k}="{serial.esc_attr(v)}"' for k, v in a.items()) + '>'
                    + draw(dfxp_inline(depth - 1, sids, rids)) + '</span>')
        else:
            out += serial.esc_xml(draw(line())) + draw(st.sampled_from(['', ' ', '\n   ']))
    return out


def tag(name, a, body=None):
    return (f'<{name}' + ''.join(f' {k}="{serial.esc_attr(v)}"' for k, v in a.items())
            + ('/>' if body is None else f'>{body}</{name}>'))


@st.composite
def dfxp(draw):
    # a repeated style id is invalid
    sids = draw(st.lists(st.sampled_from(IDS), max_size=3, unique=True))
    rids = draw(st.lists(st.sampled_from(['r0', 'r1', 'bottom', 'pop1', 'reg.A']), max_size=3,
                         unique=True).map(lambda l: [x for x in l if x not in sids]))
    head = ''
    for i, s in enumerate(sids):
        a = {'xml:id': s, **draw(attrs(STYLE_ATTR, 0, 3))}
        if i and draw(st.integers(0, 3)) == 0:
            a['style'] = sids[i - 1]
        head += tag('style', a)
    head = f'<styling>{head}</styling><layout>'
    for r in rids:
        a = {'xml:id': r, **draw(attrs(POS_ATTR, 0, 4))}
        head += tag('region', a)
    head += '</layout>'
    divs = []
    langs = draw(st.lists(st.sampled_from(LANGS + ['', 'a"b&c<d>']), min_size=1, max_size=2))
    for lg in langs:
        ps = []
        for s, e in draw(times(draw(st.integers(0 if divs else 1, 3)))):
            a = {'begin': ck(s, '.'), 'end': ck(e, '.')}
            if rids and draw(st.booleans()):
                a['region'] = draw(st.sampled_from(rids))
            if sids and draw(st.booleans()):
                a['style'] = draw(st.sampled_from(sids))
            if draw(st.integers(0, 3)) == 0:
                a.update(draw(attrs(STYLE_ATTR, 0, 2)))
            ps.append((a, 'w ' + draw(dfxp_inline(2, sids, rids))))
        da = {'region': draw(st.sampled_from(rids))} if rids and draw(st.integers(0, 3)) == 0 else {}
        divs.append((lg if draw(st.integers(0, 5)) else None, da, ps))
    return serial.dfxp(divs, tt_lang=draw(st.sampled_from([None, 'en', 'und'])), head=head)


CSS = ['margin-left: 10px;', 'margin-top: 5%;', 'text-align: center;', 'text-align: right;',
       'color: red;', 'color: #00ff00;', 'font-family: Arial;', 'font-family: "Times New", serif;',
       'font-size: 14pt;', 'font-style: italic;', 'font-weight: bold;', 'text-decoration: underline;',
       'background-color: black;']
SAMI_IN = ['<i>a</i>', '<b>b</b>', '<u>c</u>', '<span style="font-style:italic;color:red;">d</span>',
           '<span class="src">e</span>', '<font color="red">f</font>', '<i>g <b>h</b></i>',
           '<span style="text-align:right;">k</span>', '<div>l</div>',
           "<span style='font-family:\"Q\";'>m</span>"]


@st.composite
def sami(draw):
    langs = draw(st.lists(st.sampled_from([('encc', 'en-US'), ('frcc', 'fr-FR'), ('decc', 'de'),
                                           ('x', 'xx')]), min_size=1, max_size=3, unique=True))
    css = draw(st.sampled_from(['P', 'P, span', 'p'])) + ' { ' + ' '.join(
        draw(st.lists(st.sampled_from(CSS), min_size=1, max_size=3))) + ' }\n'
    for c, lg in langs:
        css += f'.{c} {{ Name: {c}; lang: {lg}; SAMI_Type: CC; ' + ' '.join(
            draw(st.lists(st.sampled_from(CSS), max_size=2))) + ' }\n'
    if draw(st.booleans()):
        sel = draw(st.sampled_from(['.src', '#Small', 'p.x', '#a, .b', 'span:hover', 'p > span', '.bottom', '.r0']))
        css += f'{sel} {{ {draw(st.sampled_from(CSS))} }}\n'
    head = serial.SAMI_HEAD.format(classes=css)
    syncs = []
    cues = draw(times(draw(st.integers(1, 4))))
    for i, (s, e) in enumerate(dict.fromkeys(cues)):
        ps = []
        for c, _ in langs:
            if draw(st.integers(0, 4)):
                b = ''
                for _ in range(draw(st.integers(1, 3))):
                    b += draw(st.one_of(st.sampled_from(SAMI_IN), st.just('<br>'),
                                        line().map(serial.esc_xml)))
                ps.append((c, 'w ' + b))
        if not ps:
            ps = [(langs[0][0], 'w')]
        if syncs and syncs[-1][0] == str(s):
            syncs.pop()
        syncs.append((str(s), ps))
        syncs.append((str(e), [(c, '&nbsp;') for c, _ in ps]))
    return serial.sami(syncs, langs, head=head)


@st.composite
def microdvd(draw):
    cues = []
    for s, e in draw(times(draw(st.integers(1, 4)))):
        cues.append((s // 40, e // 40 + 1, '|'.join(
            draw(st.lists(line().filter(lambda x: not x.startswith('/')), min_size=1, max_size=2)))))
    fps = draw(st.sampled_from([None, '25.000', '23.976', '30']))
    return serial.microdvd(cues, fps)


@st.composite
def scc(draw):
    lines = []
    t = 30
    mode = draw(st.sampled_from(['pop', 'pop', 'pop', 'paint', 'roll']))
    dbl = draw(st.booleans())
    for _ in range(draw(st.integers(1, 3))):
        e = cc.Emit(lambda: dbl)
        if mode == 'pop':
            e.code('94ae')
            e.code('9420')
        elif mode == 'paint':
            e.code('9429')
        else:
            e.code('9425')
            e.code('94ad')
        ld = draw(cc.load(max_rows=2 if mode != 'roll' else 1, max_items=5))
        for r in ld:
            e.row(r)
        e.flush()
        if mode == 'pop':
            e.code('942f')
        lines.append((cc.tc(t), list(e.words)))
        t += len(e.words) + draw(st.sampled_from([20, 60, 200]))
        if draw(st.integers(0, 2)):
            lines.append((cc.tc(t), ['942c', '942c']))
            t += draw(st.sampled_from([10, 50]))
    return cc.document(lines)


GEN = {'srt': srt, 'webvtt': webvtt, 'dfxp': dfxp, 'sami': sami, 'microdvd': microdvd, 'scc': scc}


def ropts(fmt):
    """read() keyword arguments"""
    if fmt == 'srt' or fmt == 'webvtt' or fmt == 'microdvd':
        return st.sampled_from([{}, {}, {'lang': 'fr'}, {'lang': 'en-US'}])
    if fmt == 'scc':
        return st.sampled_from([{}, {}, {'lang': 'fr'}, {'offset': 1}, {'simulate_roll_up': True}])
    return st.just({})


@st.composite
def doc(draw, formats=None):
    fmt = draw(st.sampled_from(formats or (FORMATS + ['dfxp', 'sami'])))
    return {'fmt': fmt, 'text': draw(GEN[fmt]()), 'ropts': draw(ropts(fmt))}


def read(d, reader=None):
    from pbt import writers
    r = reader or writers.reader(d['fmt'], d.get('iopts'))
    return r.read(d['text'], **d.get('ropts', {}))


_ = WORDS
