"""Token-level reader for the Rust subset used by the crate under verification.

It never re-prints code: every transformation is a list of (start, end, text)
edits on the original text, so whatever is not edited reaches the verifier
verbatim.
"""
import re


class Lost(Exception):
    pass


TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*)
  | (?P<rstr>b?r(?P<h>\#*)")
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<life>'[A-Za-z_][A-Za-z0-9_]*(?!'))
  | (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
  | (?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?)
  | (?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
  | (?P<p>::|->|=>|\.\.=|\.\.\.|\.\.|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|\|=|&=|<<=|<<|>>=|.)
''', re.X | re.S)


class T:
    __slots__ = ('k', 's', 'a', 'b')

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return '%s:%r' % (self.k, self.s)


def lex(src):
    """tokens without white space and comments"""
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        if m.group('rstr'):
            end = src.index('"' + m.group('h'), m.end())
            j = end + 1 + len(m.group('h'))
            out.append(T('str', src[i:j], i, j))
            i = j
            continue
        if m.group('bc'):
            d, j = 1, m.end()
            while d:
                c = re.compile(r'/\*|\*/').search(src, j)
                if not c:
                    raise Lost('unterminated comment')
                d += 1 if c.group() == '/*' else -1
                j = c.end()
            i = j
            continue
        if k not in ('ws', 'lc'):
            s = m.group()
            # '>>' never matters as a shift for bracket matching; split it
            if s in ('>>', '>>='):
                pass
            out.append(T(k, s, i, m.end()))
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}


def match_close(t, i):
    """index of the token closing the bracket at t[i]"""
    want = [OPEN[t[i].s]]
    j = i + 1
    while j < len(t):
        s = t[j].s
        if t[j].k == 'p':
            if s in OPEN:
                want.append(OPEN[s])
            elif s in CLOSE:
                if s != want[-1]:
                    raise Lost('unbalanced brackets')
                want.pop()
                if not want:
                    return j
        j += 1
    raise Lost('unbalanced brackets')


def skip_angle(t, i):
    """t[i] is '<': index after the matching '>'"""
    d = 0
    while i < len(t):
        s = t[i].s
        if s == '<':
            d += 1
        elif s == '>':
            d -= 1
        elif s == '>>':
            d -= 2
        elif s in OPEN and t[i].k == 'p':
            i = match_close(t, i)
        if d <= 0 and s in ('>', '>>'):
            return i + 1
        i += 1
    raise Lost('unbalanced <>')
