"""Independent serialisers: abstract documents -> text in each format."""
from fractions import Fraction
from math import floor

MS = 1000
SEC = 1000000


# ------------------------------------------------------------------ time spellings
# A spelling is a JSON object; text(sp) is what is written, micros(sp) what it denotes
# (an exact Fraction of microseconds).
def t_text(sp):
    k = sp['k']
    if k == 'clock':                      # h may be None (WebVTT)
        s = '' if sp.get('h') is None else sp['h'] + ':'
        s += f"{sp['m']}:{sp['s']}"
        if sp.get('f') is not None:
            s += sp['sep'] + sp['f']
        return s
    if k == 'frames':
        return f"{sp['h']}:{sp['m']}:{sp['s']}:{sp['f']}"
    if k == 'offset':
        return sp['v'] + sp['u']
    if k == 'int':
        return sp['v']
    raise ValueError(k)


def t_micros(sp, fps=30):
    k = sp['k']
    if k in ('clock', 'frames'):
        v = Fraction(int(sp.get('h') or 0) * 3600 + int(sp['m']) * 60 + int(sp['s'])) * SEC
        f = sp.get('f')
        if f is not None:
            if k == 'frames':
                v += Fraction(int(f), 30) * SEC
            else:
                v += Fraction(int(f), 10 ** len(f)) * SEC
        return v
    if k == 'offset':
        return Fraction(sp['v']) * {'h': 3600 * SEC, 'm': 60 * SEC, 's': SEC, 'ms': MS,
                                    'f': Fraction(SEC, 30)}[sp['u']]
    if k == 'int':
        return Fraction(sp['v'])
    raise ValueError(k)


def fl(x):
    return floor(x)


def esc_xml(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def esc_attr(s):
    return esc_xml(s).replace('"', '&quot;')


# ------------------------------------------------------------------ documents
def srt(cues, eol='\n', gap=1, tail='', start=1, numbers=None, pad=''):
    """pad: blanks in the empty lines between cues; cues: [(start_text, end_text, [raw lines])]"""
    out = []
    for i, (s, e, lines) in enumerate(cues):
        num = numbers[i] if numbers else str(start + i)
        g = gap[i % len(gap)] if isinstance(gap, list) else gap
        last = i == len(cues) - 1
        blk = [num, f'{s} --> {e}'] + list(lines)
        out.append(eol.join(blk) + ('' if last else eol + (pad + eol) * g))
    return ''.join(out) + tail


def vtt(blocks, eol='\n', header='WEBVTT', tail=''):
    """blocks: lists of raw lines, separated by blank lines; each block may carry a
    trailing ('gap', n)"""
    out = header + eol + eol
    for i, (lines, gap) in enumerate(blocks):
        out += eol.join(lines)
        out += (eol * (gap + 1)) if i < len(blocks) - 1 else ''
    return out + tail


def dfxp(divs, tt_lang=None, head='', eol='\n', indent=True):
    """divs: [(lang|None, attrs, [(attrs dict, body raw xml)])]"""
    nl = eol if indent else ''
    s = '<?xml version="1.0" encoding="UTF-8"?>' + eol
    s += '<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling"'
    if tt_lang is not None:
        s += f' xml:lang="{esc_attr(tt_lang)}"'
    s += f'>{nl}<head>{head}</head>{nl}<body>{nl}'
    for lang, attrs, ps in divs:
        s += '<div'
        if lang is not None:
            s += f' xml:lang="{esc_attr(lang)}"'
        s += ''.join(f' {k}="{esc_attr(v)}"' for k, v in (attrs or {}).items()) + f'>{nl}'
        for pa, body in ps:
            s += '<p' + ''.join(f' {k}="{esc_attr(v)}"' for k, v in pa.items()) + f'>{body}</p>{nl}'
        s += f'</div>{nl}'
    return s + f'</body>{nl}</tt>{eol}'


SAMI_HEAD = '''<SAMI>
<HEAD>
<TITLE>T</TITLE>
<STYLE TYPE="text/css">
<!--
P {{ margin-left: 1pt; text-align: center; }}
{classes}
-->
</STYLE>
</HEAD>
<BODY>
'''


def sami(syncs, langs, style=None, head=None, closing=True):
    """syncs: [(start attr text, [(class, raw body)])]; langs: [(class, lang)]"""
    style = style or {}
    tag = (lambda t: t.lower()) if style.get('lower') else (lambda t: t)
    q = '"' if style.get('quote') else ''
    s = head if head is not None else SAMI_HEAD.format(classes='\n'.join(
        f'.{c} {{ Name: {c}; lang: {lg}; SAMI_Type: CC; }}' for c, lg in langs))
    close = style.get('close', True)
    for st, ps in syncs:
        s += f"<{tag('SYNC')} {tag('Start')}={q}{st}{q}>"
        for c, body in ps:
            s += f"<{tag('P')} {tag('Class')}={q}{c}{q}>{body}"
            if close:
                s += f"</{tag('P')}>"
        if close:
            s += f"</{tag('SYNC')}>"
        s += '\n'
    return s + '</BODY>\n</SAMI>\n'


def microdvd(cues, fps=None, eol='\n', tail='\n', blanks=()):
    """blanks: the number of empty lines before each cue"""
    lines = []
    if fps is not None:
        lines.append('{0}{0}' + fps)
    for i, (s, e, body) in enumerate(cues):
        lines += [''] * (blanks[i] if i < len(blanks) and lines else 0)
        lines.append(f'{{{s}}}{{{e}}}{body}')
    return eol.join(lines) + tail
