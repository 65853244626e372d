"""Generated API-built caption sets with layouts, styles and style nodes."""
from pbt.gen import hostile_line, st, words

LANGS = ['en', 'en-US', 'fr', 'de', 'pt-BR']
HOSTILE_LANGS = ['a"b', "o'x", '<en>', 'a&b', '&amp;', '', 'x y', 'bottom', '日本']
KEYS = ['color', 'font-family', 'font-size', 'text-align', 'display-align']
VALUES = ['red', 'a "q" b', "it's", 'A&B', '<b>', '&lt;', '"\'', 'x > y', '', 'é', ']]>', '1c', 'center', 'left']
CLASSES = ['s1', 'p', 'default', 'bottom', 'r0', 'r1', 'A.b-c', 'é', 'a b', '1x', 'a"b', 'q&a', '<i>', "o'x",
           'x:y', '.c', '', '日本', '_x0061_', 'span']


def pct(lo=0, hi=100):
    return st.one_of(st.integers(lo, hi).map(str), st.sampled_from(['12.5', '33.33', '0.05', '66.67'])
                     ).map(lambda v: [v, '%'])


def size(units=('%', '%', '%', 'px', 'em', 'pt', 'c')):
    return st.one_of(pct(), st.tuples(st.integers(0, 90).map(str), st.sampled_from(units)).map(list))


H = ['left', 'center', 'right', 'start', 'end']
V = ['top', 'center', 'bottom']


@st.composite
def layout(draw, sz=None, web=False):
    sz = sz or size()
    d = {}
    k = draw(st.integers(0, 15))
    if k & 1:
        d['o'] = [draw(sz), draw(sz)]
    if k & 2:
        d['e'] = [draw(sz), draw(sz)]
    if k & 4:
        d['p'] = [draw(st.one_of(st.none(), sz)) for _ in range(4)]
    if k & 8 or k == 0:
        d['a'] = draw(st.tuples(st.sampled_from(H), st.sampled_from(V)).map(list))
        if draw(st.integers(0, 5)) == 0:
            d['a'][draw(st.integers(0, 1))] = None
    if web and draw(st.integers(0, 4)) == 0:
        d['w'] = draw(st.sampled_from(['align:left', 'line:10% position:5%', 'size:50%']))
    return d


def pick(pool):
    """None or one of the pool's layouts"""
    return st.one_of(st.none(), st.sampled_from(pool)) if pool else st.none()


@st.composite
def style(draw, classes, hostile=True, tags=True):
    d = {}
    if tags:
        for k in draw(st.lists(st.sampled_from(['italics', 'italics', 'bold', 'underline']), max_size=2)):
            d[k] = True
    for k in draw(st.lists(st.sampled_from(KEYS), max_size=2)):
        d[k] = draw(st.sampled_from(VALUES if hostile else ['red', 'left', '10px']))
    if classes and draw(st.integers(0, 2)) == 0:
        d['class'] = draw(st.sampled_from(classes))
        d['classes'] = d['class'].split(' ')
    return d


@st.composite
def nodes(draw, text, classes, pool, depth=2, max_parts=4, hostile=True):
    """balanced nodes with some text"""
    out = []
    for _ in range(draw(st.integers(1, max_parts))):
        k = draw(st.integers(0, 6))
        if k <= 2:
            out.append(['t', draw(text), draw(pick(pool))])
        elif k == 3:
            out.append(['b', draw(pick(pool))])
        elif depth:
            s, lo = draw(style(classes, hostile)), draw(pick(pool))
            out.append(['s', True, s, lo])
            if draw(st.integers(0, 7)):
                out += draw(nodes(text, classes, pool, depth - 1, 2, hostile))
            out.append(['s', False, s, lo])
        else:
            out.append(['t', draw(text), None])
    return out


@st.composite
def caption_set(draw, hostile=True, max_langs=3, max_caps=3, web=False, sz=None, depth=2, unbalanced=False,
                min_langs=0):
    langs = draw(st.lists(st.sampled_from(LANGS + (HOSTILE_LANGS if hostile else [])),
                          min_size=min_langs if draw(st.integers(0, 15)) == 15 else 1,
                          max_size=max_langs, unique=True))
    pool = draw(st.lists(layout(sz, web), max_size=3))
    styles = {}
    names = draw(st.lists(st.sampled_from(CLASSES if hostile else CLASSES[:6]), max_size=3, unique=True))
    for n in names:
        styles[n] = draw(style(names, hostile))
    classes = names + ['undefined', 'default']
    text = st.one_of(words(), hostile_line(4)) if hostile else words()
    out = []
    for lg in langs:
        caps, t = [], draw(st.integers(0, 3)) * 700000
        for _ in range(draw(st.integers(0 if out else 1, max_caps))):
            if caps and draw(st.integers(0, 3)) == 0:
                s, e = caps[-1]['s'], caps[-1]['e']
            else:
                s, e = t, t + draw(st.sampled_from([80000, 1000000, 2345678]))
                t = e + draw(st.sampled_from([0, 1, 40000, 2000000]))
            ns = draw(nodes(text, classes, pool, depth, hostile=hostile))
            if unbalanced and draw(st.integers(0, 3)) == 0:
                i = draw(st.integers(0, len(ns)))
                ns.insert(i, ['s', draw(st.booleans()), draw(style(classes, hostile)), draw(pick(pool))])
            ns.insert(draw(st.sampled_from([0, len(ns)])), ['t', draw(text), draw(pick(pool))])
            caps.append({'s': s, 'e': e, 'nodes': ns,
                         'style': draw(st.one_of(st.just({}), style(classes, hostile))),
                         'layout': draw(pick(pool))})
        out.append([lg, {'caps': caps, 'layout': draw(pick(pool))}])
    return {'langs': out, 'styles': styles, 'layout': draw(pick(pool))}


@st.composite
def wopts(draw, inline=False):
    o = {}
    k = draw(st.integers(0, 31))
    if k & 1:
        o['relativize'] = False
    if k & 2:
        o['fit_to_screen'] = False
    if k & 12 or o.get('relativize', True):
        o['video_width'], o['video_height'] = draw(st.sampled_from([(640, 360), (1920, 1080), (720, 576), (1, 1)]))
    if inline and k & 16:
        o['write_inline_positioning'] = True
    return o
