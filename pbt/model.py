"""Specs (JSON values) <-> pycaption objects, and canonical dumps."""
import json

from pbt.core import fail


def P():
    import pycaption
    return pycaption


# ---------------------------------------------------------------- geometry specs
# size: ["10.5", "%"]; point/stretch: [size, size]; padding: [b, a, s, e] of size|None
# align: [h|None, v|None]; layout: {"o":…, "e":…, "p":…, "a":…, "w": webvtt string}
UNITS = {'px': 'PIXEL', 'em': 'EM', '%': 'PERCENT', 'c': 'CELL', 'pt': 'PT'}


def mk_size(s):
    from pycaption.geometry import Size, UnitEnum
    if s is None:
        return None
    return Size(float(s[0]), getattr(UnitEnum, UNITS[s[1]]))


def mk_align(a):
    from pycaption.geometry import (Alignment, HorizontalAlignmentEnum as H,
                                    VerticalAlignmentEnum as V)
    if a is None:
        return None
    h = getattr(H, a[0].upper()) if a[0] else None
    v = getattr(V, a[1].upper()) if a[1] else None
    return Alignment(h, v)


def mk_layout(d):
    from pycaption.geometry import Layout, Point, Stretch, Padding
    if d is None:
        return None
    o, e, p = d.get('o'), d.get('e'), d.get('p')
    return Layout(
        origin=Point(mk_size(o[0]), mk_size(o[1])) if o else None,
        extent=Stretch(mk_size(e[0]), mk_size(e[1])) if e else None,
        padding=Padding(*[mk_size(x) for x in p]) if p else None,
        alignment=mk_align(d.get('a')),
        webvtt_positioning=d.get('w'))


def mk_node(n):
    from pycaption import CaptionNode
    k = n[0]
    if k == 't':
        return CaptionNode.create_text(n[1], layout_info=mk_layout(n[2] if len(n) > 2 else None))
    if k == 'b':
        return CaptionNode.create_break(layout_info=mk_layout(n[1] if len(n) > 1 else None))
    if k == 's':
        return CaptionNode.create_style(n[1], dict(n[2]),
                                        layout_info=mk_layout(n[3] if len(n) > 3 else None))
    raise ValueError(n)


def num(x):
    """times: ints, or ["f", "repr"] for floats"""
    return float(x[1]) if isinstance(x, list) else x


def mk_caption(c):
    from pycaption import Caption
    return Caption(num(c['s']), num(c['e']), [mk_node(n) for n in c['nodes']],
                   style=dict(c.get('style') or {}), layout_info=mk_layout(c.get('layout')))


def mk_set(d):
    from pycaption import CaptionList, CaptionSet
    caps = {}
    for lang, lst in d['langs']:
        caps[lang] = CaptionList([mk_caption(c) for c in lst['caps']],
                                 layout_info=mk_layout(lst.get('layout')))
    return CaptionSet(caps, styles={k: dict(v) for k, v in (d.get('styles') or {}).items()},
                      layout_info=mk_layout(d.get('layout')))


def lines_nodes(lines):
    nodes = []
    for i, ln in enumerate(lines):
        if i:
            nodes.append(['b'])
        if ln != '':
            nodes.append(['t', ln])
    return nodes


def simple_set(langs):
    """langs: [[lang, [[start, end, [lines]]...]]...]"""
    return {'langs': [[lg, {'caps': [{'s': s, 'e': e, 'nodes': lines_nodes(ls)}
                                     for s, e, ls in caps]}] for lg, caps in langs]}


# ---------------------------------------------------------------- dumps
def d_enum(x):
    return None if x is None else str(getattr(x, 'value', x))


def d_size(s):
    return None if s is None else [float(s.value), d_enum(s.unit)]


def d_layout(lo):
    if lo is None:
        return None
    if not hasattr(lo, 'origin'):
        return repr(lo)
    o, e, p, a = lo.origin, lo.extent, lo.padding, lo.alignment
    return {
        'o': None if o is None else [d_size(o.x), d_size(o.y)],
        'e': None if e is None else [d_size(e.horizontal), d_size(e.vertical)],
        'p': None if p is None else [d_size(p.before), d_size(p.after),
                                     d_size(p.start), d_size(p.end)],
        'a': None if a is None else [d_enum(a.horizontal), d_enum(a.vertical)],
        'w': lo.webvtt_positioning,
    }


def d_val(v):
    if isinstance(v, dict):
        return {str(k): d_val(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [d_val(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if hasattr(v, 'origin'):
        return d_layout(v)
    return repr(v)


def d_node(n):
    from pycaption import CaptionNode as N
    kind = {N.TEXT: 't', N.STYLE: 's', N.BREAK: 'b'}.get(n.type_, n.type_)
    return [kind, d_val(n.content), n.start, d_val(n.position) if not isinstance(
        n.position, str) else n.position, d_layout(n.layout_info)]


def d_caption(c):
    return {'s': c.start, 'e': c.end, 'nodes': [d_node(n) for n in c.nodes],
            'style': d_val(c.style), 'layout': d_layout(c.layout_info)}


def d_set(cs):
    return {
        'langs': [[lg, {'layout': d_layout(getattr(cs.get_captions(lg), 'layout_info', None)),
                        'caps': [d_caption(c) for c in cs.get_captions(lg)]}]
                  for lg in cs.get_languages()],
        'styles': d_val(dict(cs.get_styles())),
        'layout': d_layout(cs.layout_info),
    }


def plain(x):
    """a dump as it looks after a trip through JSON"""
    return json.loads(json.dumps(x))


def norm_lines(text):
    """Lines of a text, whitespace-normalised, empty ones dropped."""
    out = []
    for ln in text.split('\n'):
        ln = ' '.join(ln.split())
        if ln:
            out.append(ln)
    return out


def cap_lines(c):
    """Lines of a caption from its TEXT/BREAK nodes."""
    from pycaption import CaptionNode as N
    s = ''
    for n in c.nodes:
        if n.type_ == N.TEXT:
            if not isinstance(n.content, str):
                fail('text node content is not a string', content=n.content)
            s += n.content
        elif n.type_ == N.BREAK:
            s += '\n'
    return norm_lines(s)
