"""Independent, strict parsers of the written formats.  Anything that does not conform is
a Violation (these parse pycaption's output)."""
import re
from html import unescape
from html.parser import HTMLParser

from pbt.core import Violation, fail

TT = '{http://www.w3.org/ns/ttml}'
TTS = '{http://www.w3.org/ns/ttml#styling}'
XML = '{http://www.w3.org/XML/1998/namespace}'


def need_str(doc):
    if not isinstance(doc, str):
        raise Violation(f'writer returned {type(doc).__name__}, not str')


def hms(h, m, s, ms):
    return ((int(h or 0) * 60 + int(m)) * 60 + int(s)) * 1000000 + int(ms) * 1000


# ------------------------------------------------------------------ SRT
SRT_TIME = re.compile(r'(\d{2,}):([0-5]\d):([0-5]\d),(\d{3}) --> (\d{2,}):([0-5]\d):([0-5]\d),(\d{3})',
                      re.ASCII)


def srt(doc, first=1):
    """[(start, end, [lines])] by the block grammar: number, timing, text lines; a blank
    line ends a block."""
    need_str(doc)
    lines = doc.split('\n')
    i, n, out = 0, len(lines), []
    while i < n:
        if lines[i].strip() == '':
            i += 1
            continue
        if not re.fullmatch(r'\d+', lines[i], re.ASCII):
            fail('SRT: cue number expected after a blank line', line=i, got=lines[i], document=doc)
        if int(lines[i]) != first + len(out):
            fail('SRT: cue numbers are not consecutive', line=i, got=lines[i], document=doc)
        i += 1
        m = SRT_TIME.fullmatch(lines[i]) if i < n else None
        if not m:
            fail('SRT: malformed timing line', line=i, got=lines[i] if i < n else None, document=doc)
        g = m.groups()
        i += 1
        text = []
        while i < n and lines[i].strip() != '':
            text.append(lines[i])
            i += 1
        out.append((hms(*g[:4]), hms(*g[4:]), text))
    return out


def srt_multi(doc):
    """Several languages, separated by the MULTI-LANGUAGE SRT marker line."""
    need_str(doc)
    out = []
    for part in doc.split('MULTI-LANGUAGE SRT\n'):
        out.append(srt(part))
    return out


# ------------------------------------------------------------------ WebVTT
VTT_TS = re.compile(r'(?:(\d{2,}):)?([0-5]\d):([0-5]\d)\.(\d{3})', re.ASCII)
VTT_LINE = re.compile(r'[ \t]*(\S+?)[ \t]*-->[ \t]*(\S+)(.*)')


def vtt_blocks(doc):
    """WebVTT parser algorithm (W3C, section 6.1): [(id, timing line, [text lines])]"""
    need_str(doc)
    doc = doc.replace('\r\n', '\n').replace('\r', '\n')
    lines = doc.split('\n')
    if not re.fullmatch(r'WEBVTT([ \t].*)?', lines[0]):
        fail('WebVTT: bad signature', got=lines[0], document=doc)
    i, n = 1, len(lines)
    if i < n and lines[i] != '':
        fail('WebVTT: header not followed by a blank line', got=lines[i], document=doc)
    cues = []
    while i < n:
        if lines[i] == '':
            i += 1
            continue
        count, cue, buf, seen_arrow = 0, None, [], False
        while i < n and lines[i] != '':
            ln = lines[i]
            count += 1
            if '-->' in ln:
                if not seen_arrow and count <= 2:
                    seen_arrow = True
                    cue = [buf[0] if buf else None, ln, []]
                    buf = cue[2]
                    i += 1
                    continue
                break                      # a new block starts at this line
            buf.append(ln)
            i += 1
        if cue is None:
            if count and not (buf and re.match(r'(NOTE|STYLE|REGION)\b', buf[0])):
                fail('WebVTT: stray block (no timing line)', got=buf, document=doc)
        else:
            cues.append(tuple(cue))
    return cues


VTT_TAGS = ('c', 'i', 'b', 'u', 'ruby', 'rt', 'v', 'lang')


def vtt_text(lines):
    """Cue text -> (display lines, [(char, (i,b,u))...] per line, problems)"""
    src = '\n'.join(lines)
    out = [[]]
    stack, problems = [], []
    pos = 0

    def emit(s):
        for ch in unescape(s):
            if ch == '\n':
                out.append([])
            else:
                out[-1].append((ch, ('i' in stack, 'b' in stack, 'u' in stack)))
    while pos < len(src):
        lt = src.find('<', pos)
        if lt < 0:
            emit(src[pos:])
            break
        emit(src[pos:lt])
        gt = src.find('>', lt)
        tok = src[lt + 1:gt if gt >= 0 else len(src)]
        pos = (gt + 1) if gt >= 0 else len(src)
        if gt < 0:
            problems.append(f'unterminated tag <{tok}')
        if tok.startswith('/'):
            name = tok[1:]
            if not stack or stack[-1] != name:
                problems.append(f'</{name}> does not close the innermost open tag {stack}')
                if name in stack:
                    while stack.pop() != name:
                        pass
            else:
                stack.pop()
        elif re.match(r'\d', tok):
            problems.append(f'timestamp tag <{tok}>')
        else:
            name = re.split(r'[.\s]', tok, maxsplit=1)[0]
            if name not in VTT_TAGS:
                problems.append(f'unknown tag <{tok}>')
            else:
                stack.append(name)
    if stack:
        problems.append(f'unclosed tags {stack}')
    return [''.join(c for c, _ in ln) for ln in out], out, problems


def vtt(doc):
    """[{'s','e','settings','lines','chars','problems','id','raw'}]"""
    out = []
    for cid, timing, lines in vtt_blocks(doc):
        m = VTT_LINE.fullmatch(timing)
        a = VTT_TS.fullmatch(m.group(1)) if m else None
        b = VTT_TS.fullmatch(m.group(2)) if m else None
        if not a or not b or (m.group(3) and m.group(3)[0] not in ' \t'):
            fail('WebVTT: malformed timing line', got=timing, document=doc)
        text, chars, problems = vtt_text(lines)
        out.append({'s': hms(*a.groups()), 'e': hms(*b.groups()), 'settings': m.group(3).strip(),
                    'lines': text, 'chars': chars, 'problems': problems, 'id': cid, 'raw': lines})
    return out


# ------------------------------------------------------------------ DFXP
def xml(doc):
    from lxml import etree
    need_str(doc)
    try:
        data = doc.encode('utf-8')
    except UnicodeEncodeError as e:
        fail('XML: output cannot be encoded as UTF-8', error=str(e), document=doc)
    try:
        return etree.fromstring(data, etree.XMLParser(
            resolve_entities=False, no_network=True, huge_tree=True, recover=False))
    except etree.XMLSyntaxError as e:
        fail('XML: not well-formed', error=str(e), document=doc)


DFXP_TIME = re.compile(r'(\d{2,}):([0-5]\d):([0-5]\d)\.(\d{3})', re.ASCII)


def dfxp_time(s, doc):
    m = DFXP_TIME.fullmatch(s or '')
    if not m:
        fail('DFXP: malformed time expression', got=s, document=doc)
    return hms(*m.groups())


def p_text(p, flags=None):
    """Display lines of a p; source newlines are spaces, br breaks the line.  Also the
    per-character style flags."""
    out = [[]]

    def walk(el, cur, style):
        def emit(s):
            for ch in (s or '').replace('\r', ' ').replace('\n', ' '):
                out[-1].append((ch, cur, style))
        tag = el.tag
        if tag == TT + 'br':
            out.append([])
        else:
            emit(el.text)
        for ch in el:
            st = dict(style)
            sub = cur
            if ch.tag == TT + 'span':
                sub = (cur[0] or ch.get(TTS + 'fontStyle') == 'italic',
                       cur[1] or ch.get(TTS + 'fontWeight') == 'bold',
                       cur[2] or 'underline' in (ch.get(TTS + 'textDecoration') or '').split())
                st.update(ch.attrib)
            walk(ch, sub, st)
            for c in (ch.tail or '').replace('\r', ' ').replace('\n', ' '):
                out[-1].append((c, cur, style))
    base = (p.get(TTS + 'fontStyle') == 'italic', p.get(TTS + 'fontWeight') == 'bold',
            'underline' in (p.get(TTS + 'textDecoration') or '').split())
    walk(p, base, {})
    return [''.join(c for c, _, _ in ln) for ln in out], out


def dfxp(doc):
    """{'root':…, 'divs': [(lang, [{'s','e','lines','el'}])]}"""
    root = xml(doc)
    if root.tag != TT + 'tt':
        fail('DFXP: root element is not tt in the TTML namespace', got=root.tag, document=doc)
    body = root.find(TT + 'body')
    if body is None:
        fail('DFXP: no body', document=doc)
    divs = []
    for div in body:
        if div.tag != TT + 'div':
            fail('DFXP: body contains something other than div', got=str(div.tag), document=doc)
        ps = []
        for p in div:
            if p.tag != TT + 'p':
                fail('DFXP: div contains something other than p', got=str(p.tag), document=doc)
            for sub in p.iter():
                if sub is not p and sub.tag not in (TT + 'span', TT + 'br'):
                    fail('DFXP: unexpected element in p', got=str(sub.tag), document=doc)
            lines, chars = p_text(p)
            ps.append({'s': dfxp_time(p.get('begin'), doc), 'e': dfxp_time(p.get('end'), doc),
                       'lines': lines, 'chars': chars, 'el': p})
        divs.append((div.get(XML + 'lang'), ps))
    return {'root': root, 'body': body, 'divs': divs}


# ------------------------------------------------------------------ SAMI
class _Sami(HTMLParser):
    def __init__(self, doc):
        super().__init__(convert_charrefs=True)
        self.doc = doc
        self.syncs = []
        self.style = ''
        self.stack = []
        self.problems = []
        self.stray = ''

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if tag == 'sync':
            if len(self.stack) > 2:
                self.problems.append(f'sync inside {self.stack}')
            self.syncs.append({'start': d.get('start'), 'ps': []})
        elif tag == 'p':
            if not self.syncs or 'sync' not in self.stack:
                self.problems.append('p outside sync')
                self.syncs.append({'start': None, 'ps': []})
            self.syncs[-1]['ps'].append({'class': d.get('class'), 'attrs': d, 'chars': [[]]})
        elif tag == 'br':
            if 'p' not in self.stack:
                self.problems.append('br outside p')
            else:
                self.syncs[-1]['ps'][-1]['chars'].append([])
            return
        elif tag not in ('sami', 'head', 'style', 'body', 'span', 'title', 'i', 'b', 'u'):
            self.problems.append(f'unexpected tag {tag}')
        self.stack.append(tag if tag != 'span' else ('span', d))

    def handle_startendtag(self, tag, attrs):
        if tag == 'br':
            self.handle_starttag(tag, attrs)
        else:
            self.handle_starttag(tag, attrs)
            self.handle_endtag(tag)

    def handle_endtag(self, tag):
        names = [t if isinstance(t, str) else t[0] for t in self.stack]
        if not names or names[-1] != tag:
            self.problems.append(f'</{tag}> closes nothing ({names})')
            if tag in names:
                while True:
                    t = self.stack.pop()
                    if (t if isinstance(t, str) else t[0]) == tag:
                        break
        else:
            self.stack.pop()

    def handle_comment(self, data):
        self.problems.append('comment in body')

    def handle_decl(self, decl):
        self.problems.append('declaration')

    def unknown_decl(self, data):
        self.problems.append('marked section')

    def handle_pi(self, data):
        self.problems.append('processing instruction')

    def handle_data(self, data):
        if 'style' in self.stack:
            self.style += data
            return
        if 'p' in self.stack:
            styles = [t[1] for t in self.stack if not isinstance(t, str)]
            names = [t for t in self.stack if isinstance(t, str)]
            css = {}
            for s in styles:
                for decl in (s.get('style') or '').split(';'):
                    if ':' in decl:
                        k, v = decl.split(':', 1)
                        css[k.strip()] = v.strip()
            fl = ('i' in names or css.get('font-style') == 'italic',
                  'b' in names or css.get('font-weight') == 'bold',
                  'u' in names or 'underline' in css.get('text-decoration', ''))
            for ch in data:
                self.syncs[-1]['ps'][-1]['chars'][-1].append(
                    (' ' if ch in '\n\r' else ch, fl))
        elif data.strip():
            self.stray += data


def sami(doc):
    """{'syncs': [{'start': int ms, 'ps': [{'class','lines','chars'}]}], 'style': css}"""
    need_str(doc)
    p = _Sami(doc)
    p.feed(doc)
    p.close()
    if p.stack:
        p.problems.append(f'unclosed {p.stack}')
    if p.stray:
        p.problems.append(f'text outside p: {p.stray[:60]!r}')
    if p.problems:
        fail('SAMI: ' + p.problems[0], document=doc)
    for s in p.syncs:
        if not re.fullmatch(r'\d+', s['start'] or '', re.ASCII):
            fail('SAMI: sync start is not an integer number of milliseconds', got=s['start'],
                 document=doc)
        s['start'] = int(s['start'])
        for q in s['ps']:
            q['lines'] = [''.join(c for c, _ in ln) for ln in q['chars']]
    return {'syncs': p.syncs, 'style': p.style}


def blank(lines):
    return all(not ln.replace('\xa0', ' ').strip() for ln in lines)


def css_langs(style, doc):
    """{class name (lower case): lang} from a written SAMI stylesheet"""
    out = {}
    body = re.sub(r'/\*.*?\*/', '', style, flags=re.S).replace('<!--', '').replace('-->', '')
    for m in re.finditer(r'([^{}]+)\{([^{}]*)\}', body):
        sel = m.group(1).strip()
        for decl in m.group(2).split(';'):
            k, _, v = decl.partition(':')
            if k.strip() == 'lang':
                out[sel.lstrip('.#').lower()] = v.strip()
    return out


# ------------------------------------------------------------------ MicroDVD
def mdvd(doc):
    """[(start frame, end frame, [lines])]"""
    need_str(doc)
    out = []
    for i, ln in enumerate(doc.split('\n')):
        if ln == '':
            continue
        m = re.fullmatch(r'\{(\d+)\}\{(\d+)\}(.*)', ln, re.ASCII)
        if not m:
            fail('MicroDVD: malformed line', line=i, got=ln, document=doc)
        out.append((int(m.group(1)), int(m.group(2)), m.group(3).split('|')))
    return out
