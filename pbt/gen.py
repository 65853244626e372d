"""Shared Hypothesis strategies."""
import sys
import pbt.core  # noqa: F401  (puts hypothesis on the path)
from hypothesis import strategies as st

WORDS = ['alpha', 'Bravo', 'été', 'q', 'Zulu9', 'naïve', '日本', 'x7', 'don’t', 'end.']


def words(min_size=1, max_size=4):
    return st.lists(st.sampled_from(WORDS), min_size=min_size,
                    max_size=max_size).map(' '.join)


def plain_lines(max_lines=3):
    return st.lists(words(), min_size=1, max_size=max_lines)


# printable characters by class; U+0020 only as separator
_PRINTABLE = None


def printable(c):
    return c.isprintable() and not ('\ud800' <= c <= '\udfff')


def printable_chars():
    """Any printable character (Unicode), biased to the lower planes."""
    return st.one_of(
        st.sampled_from([chr(i) for i in range(0x21, 0x7f)]),
        st.sampled_from([chr(i) for i in range(0xa1, 0x250) if chr(i).isprintable()]),
        st.characters(min_codepoint=0x250, max_codepoint=0xffff,
                      exclude_categories=('Cc', 'Cf', 'Cs', 'Co', 'Cn', 'Zl', 'Zp', 'Zs')),
        st.characters(min_codepoint=0x10000, max_codepoint=0x1ffff,
                      exclude_categories=('Cc', 'Cf', 'Cs', 'Co', 'Cn', 'Zl', 'Zp', 'Zs')),
    ).filter(str.isprintable)


META = ['&', '<', '>', '"', "'", '-->', '--', '->', '-', '&amp;', '&lt;', '&gt;', '&quot;',
        '&apos;', '&nbsp;', '&lrm;', '&rlm;', '&#60;', '&#x3c;', '&#38;', '&amp;lt;', '&amp;amp;',
        '&eacute;', '&copy', '&notin', '&#', '&;', '&x;', ';', ';>', '#', '|', '{', '}', '{1}{2}',
        '{y:i}', '<i>', '</i>', '<b>', '<br/>', '<br>', '<v Bob>', '<c.red>', '<00:01.000>',
        '</span>', '<span>', '<p>', '</p>', '</sync>', '<![CDATA[', ']]>', '<!--', '<?x?>',
        '1', '42', '00:00:01,000', '00:01.000', 'WEBVTT', 'NOTE', 'STYLE', 'REGION', '\\', '/', '%',
        'a', 'b', 'I', '.', ',', '...', '=', 'Scenarist_SCC V1.0', '</tt>', '<sami', '<i/>', '&&',
        '<<', '>>', '<3', '&1', '\\n', '\\h', '\\N', '*', '_', '`', '$', '[x]', '(y)', '~', '^', '@',
        '!', '?', '+', '0']


def hostile_line(max_parts=8, exclude=()):
    """One line of printable text, adversarial; at least one visible character; no
    leading/trailing blanks, inner runs of blanks possible."""
    ex = set(exclude)
    meta = [m for m in META if not any(x in m for x in ex)]
    part = st.one_of(st.sampled_from(meta), st.sampled_from(meta),
                     st.sampled_from([' ', ' ', ' ', '\xa0', '\u3000', '\u2009']),
                     st.sampled_from(WORDS), printable_chars())
    s = st.lists(part, min_size=1, max_size=max_parts).map(lambda p: ''.join(p).strip())
    s = s.filter(lambda t: t and not any(x in t for x in ex))
    return s


MAXU = sys.maxunicode
