"""Alphabets of the symbolic characters."""
# every ASCII code point, then representatives of the Unicode classes that
# Python's and CommonMark's predicates distinguish
ASCII = tuple(map(chr, range(128)))
UNI = ('\x80', '\x85', '\xa0', '\xab', '\xad', '\xb5', '\xb7', '\xbf', '\xc9', '\xdf', '\xe9', '\xff', '\u0100',
       '\u0130', '\u0131', '\u0301', '\u0660', '\u06dd', '\u1680', '\u2003', '\u200b', '\u2018', '\u2019', '\u2028', '\u20ac', '\u2160',
       '\u3000', '\u4e2d', '\ufe4f', '\uff0a', '\uff3f', '\uffff', '\U0001f600', '\U0001d7d8')
ALL = ASCII + UNI


def without(alpha, chars):
    return tuple(c for c in alpha if c not in chars)


# no line terminators of text files
LINE = without(ALL, '\n\r')
ALINE = without(ASCII, '\n\r')
# no character that starts an inline other than emphasis
EMPHA = without(LINE, '<&[]!`\\\x00')
# the same without the characters the smart punctuation code looks at
EMPHB = without(EMPHA, '"\'-.')
DELIM = ('*', '_', 'a', ' ', '.', '\\', '`')
TINY = ('*', '_', 'a', ' ', '.')
LINK = ('*', '_', 'a', ' ', '[', ']', '(', ')', '!')
DEST = ('*', 'a', ' ', '(', ')', '<', '>', '"', '\\')
TAG = ('*', 'a', ' ', '<', '>', '/', '=', '"')
# printable ASCII and blanks
PRINT = tuple(map(chr, range(32, 127))) + ('\t',)
# printable without control characters, plus the Unicode ones
TEXT = PRINT + tuple(c for c in UNI if c not in '\x80\x85')


def _closure():
    out = set(ALL)
    for c in ALL:
        out |= set(c.lower()) | set(c.upper())
    return tuple(sorted(out))


UNIVERSE = _closure()
