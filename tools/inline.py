"""Puts functions that have no contract in place of their calls.

A helper that an edit extracted has no contract of its own; its callers are
checked with its body instead. Works on the source text before anything else:
f(a, b) becomes ({ let p: P = a; let q: Q = b; let __h: R = { body }; __h }).
Only where that means the same:
  - parameters of type &mut T are replaced by the place that is passed
  - a body with `?` only where the call is the result of its caller, or is followed by ?
  - a `return` of the body stays where it returns the same from the caller; elsewhere it is
    taken out: if c { return x; } rest becomes if c { x } else { rest }
  - no recursion, names that would be captured are left alone
Whatever does not fit stays a call of a function without a contract.
"""
import re
from rsx import lex, match_close, skip_angle, Lost, OPEN, CLOSE


COUNT = [0]


class No(Exception):
    pass


def params(fx, f):
    """[(mut, name, type text)], self kind"""
    t, (j, e) = fx.t, f.par
    out, slf, m = [], None, j + 1
    while m < e:
        q = m
        while q < e and t[q].s != ',':
            if t[q].s == '<':
                q = skip_angle(t, q)
                continue
            if t[q].k == 'p' and t[q].s in OPEN:
                q = match_close(t, q)
            q += 1
        w = [x.s for x in t[m:q]]
        if 'self' in w and ':' not in w:
            slf = '&mut' if '&' in w and 'mut' in w else '&' if '&' in w else 'v'
        elif w:
            h = m + 1 if t[m].s == 'mut' else m
            if t[h].k != 'id' or t[h + 1].s != ':':
                raise No('pattern parameter')
            out.append((h > m, t[h].s, fx.src[t[h + 2].a:t[q - 1].b]))
        m = q + 1
    return out, slf


def enclosing(t, i, lo):
    """openers of the groups around token i, innermost first"""
    out, d, k = [], 0, i - 1
    while k >= lo:
        if t[k].k == 'p':
            if t[k].s in CLOSE:
                d += 1
            elif t[k].s in OPEN:
                if d == 0:
                    out.append(k)
                else:
                    d -= 1
        k -= 1
    return out


def bound(t, name):
    """is name bound somewhere in these tokens?"""
    for i, x in enumerate(t):
        if x.k != 'id' or x.s != name:
            continue
        if i and t[i - 1].s in ('let', 'mut', 'ref', 'for', '|'):
            if t[i - 1].s == 'mut' and i > 1 and t[i - 2].s == '&':
                continue
            return True
        # in a pattern: let .. name .. =, or before =>
        k = i - 1
        while k >= 0 and t[k].s not in (';', '{', '}', '=', '=>', 'let', 'if', 'while', 'match', 'return'):
            k -= 1
        if k >= 0 and t[k].s == 'let':
            return True
        k = i + 1
        while k < len(t) and t[k].s in (')', ',', '|', '@', '..', '}') or (k < len(t) and t[k].k in ('id', 'num')):
            k += 1
        if k < len(t) and t[k].s == '=>':
            return True
    return False


def body_text(fx, f, repl):
    """the body with the identifiers in repl replaced: name -> (place, how)"""
    k, e = f.body
    t = fx.t
    a = t[k].b
    out, pos = [], a
    skip = None
    for i in range(k + 1, e):
        x = t[i]
        if x.k != 'id' or x.s not in repl or t[i - 1].s in ('.', '::'):
            continue
        if t[i + 1].s == ':' and t[i - 1].s in ('{', ','):
            continue                        # field name
        place, how = repl[x.s]
        nxt = t[i + 1].s
        s, start = place, x.a
        if how == 'ref':
            if nxt == '.' and t[i - 1].s != '*':
                s = place
            elif t[i - 1].s == '*' and (t[i - 2].k not in ('id', 'num', 'str') or t[i - 2].s in ('return', 'in', 'if', 'match')) and t[i - 2].s not in (')', ']') and nxt != '.':
                start = t[i - 1].a
                s = place
            else:
                s = '(&mut %s)' % place
        if t[i - 1].s in ('{', ',') and nxt in (',', '}'):
            enc = enclosing(t, i, k)
            if enc and t[enc[0]].s == '{' and t[enc[0] - 1].k == 'id' and (t[enc[0] - 1].s[:1].isupper()):
                s = '%s: %s' % (x.s, s)
        out.append(fx.src[pos:start])
        out.append(s)
        pos = x.b
    out.append(fx.src[pos:t[e].a])
    return ''.join(out)


BLOCKY = ('if', 'match', 'while', 'for', 'loop', '{', 'unsafe')


def stmts(t):
    """[(start, end)] of the statements of a block's inside; end includes the semicolon"""
    out, i, n = [], 0, len(t)
    while i < n:
        if t[i].s == ';':
            i += 1
            continue
        a, blocky = i, t[i].s in BLOCKY
        while i < n:
            x = t[i].s
            if x == ';':
                i += 1
                break
            if t[i].k == 'p' and x in OPEN:
                j = match_close(t, i)
                i = j + 1
                if x == '{' and blocky and (i >= n or t[i].s not in ('else', '.', '?')):
                    # if let P = S { .. } has one block per arm only
                    break
                continue
            i += 1
        out.append((a, i))
    return out


def closure_in(t):
    return any(x.s in ('|', '||') and (i == 0 or t[i - 1].s in ('(', ',', '=', 'move', 'return')) for i, x in enumerate(t))


def returns(t, err_ok):
    """positions of the `return`s that have to go"""
    return [i for i, x in enumerate(t) if x.k == 'id' and x.s == 'return' and not (
        err_ok and i + 2 < len(t) and t[i + 1].s == 'Err' and t[i + 2].s == '(')]


def diverges(t):
    st = stmts(t)
    if not st:
        return False
    a, b = st[-1]
    w = t[a:b]
    if w[0].s == 'return':
        return True
    if w[0].s == 'if':
        br = branches(w)
        return br is not None and br[-1][0] is None and all(diverges(x) for _, x in br)
    if w[0].s == 'match':
        return all(diverges(x) for _, x in arms(w)[1])
    return False


def branches(w):
    """if statement -> [(condition tokens or None, body tokens)]"""
    out, i = [], 0
    while i < len(w):
        if w[i].s == ';':
            break
        if w[i].s == 'else':
            i += 1
            if w[i].s == '{':
                j = match_close(w, i)
                out.append((None, w[i + 1:j]))
                if j + 1 < len(w) and w[j + 1].s != ';':
                    return None
                break
        if w[i].s != 'if':
            return None
        k = i + 1
        while w[k].s != '{':
            k = match_close(w, k) + 1 if w[k].k == 'p' and w[k].s in OPEN else k + 1
        j = match_close(w, k)
        out.append((w[i + 1:k], w[k + 1:j]))
        i = j + 1
    return out


def arms(w):
    """match expression -> (scrutinee tokens, [(pattern tokens, body tokens)])"""
    k = 1
    while w[k].s != '{':
        k = match_close(w, k) + 1 if w[k].k == 'p' and w[k].s in OPEN else k + 1
    e = match_close(w, k)
    if e + 1 < len(w) and w[e + 1].s != ';':
        raise No('match is part of an expression')
    out, i = [], k + 1
    while i < e:
        p = i
        while w[i].s != '=>':
            i = match_close(w, i) + 1 if w[i].k == 'p' and w[i].s in OPEN else i + 1
        pat, i = w[p:i], i + 1
        if w[i].s == '{':
            j = match_close(w, i)
            if j + 1 >= e or w[j + 1].s not in ('.', '?'):
                out.append((pat, w[i + 1:j]))
                i = j + 2 if j + 1 < e and w[j + 1].s == ',' else j + 1
                continue
        b = i
        while i < e and w[i].s != ',':
            i = match_close(w, i) + 1 if w[i].k == 'p' and w[i].s in OPEN else i + 1
        out.append((pat, w[b:i]))
        i += 1
    return w[1:k], out


def unret(src, t, err_ok, depth=0):
    """text of a block's inside with the same value, without the `return`s that have to go"""
    def txt(w):
        return src[w[0].a:w[-1].b] if w else ''
    if not returns(t, err_ok):
        return txt(t)
    if depth > 12:
        raise No('too many returns')
    pre = []
    st = stmts(t)
    for n, (a, b) in enumerate(st):
        w, rest = t[a:b], t[b:]
        if not returns(w, err_ok):
            pre.append(txt(w))
            continue
        if closure_in(w):
            raise No('closure')

        def cont(body, value=None):
            """a branch that may go on with the rest"""
            if diverges(body):
                return unret(src, body, err_ok, depth + 1)
            if not rest and value is None:
                return unret(src, body, err_ok, depth + 1)
            r = unret(src, rest, err_ok, depth + 1)
            if value is not None:
                if returns(body, err_ok):
                    raise No('returns in a value')
                return value(txt(body)) + ' ' + r
            if any(x.s == 'let' for x in body) or returns(body, err_ok) and not rest:
                raise No('branch that goes on')
            if returns(body, err_ok):
                lst = stmts(body)
                return unret2(body, r)
            s = txt(body)
            return s + ('' if not s or s[-1] in ';}' else ';') + ' ' + r

        def unret2(body, r):
            raise No('branch that goes on after a return inside')
        if w[0].s == 'return':
            v = w[1:-1] if w[-1].s == ';' else w[1:]
            pre.append(txt(v) if v else '()')
            return '\n'.join(pre)
        if w[0].s == 'if':
            br = branches(w)
            if br is None or any(c and returns(c, False) for c, _ in br):
                raise No('if')
            s = ' else '.join(('if %s { %s }' % (txt(c), cont(x))) if c is not None else '{ %s }' % cont(x) for c, x in br)
            if br[-1][0] is not None:
                s += ' else { %s }' % (unret(src, rest, err_ok, depth + 1) if rest else '')
            pre.append(s)
            return '\n'.join(pre)
        if w[0].s == 'match':
            sc, ar = arms(w)
            if returns(sc, False):
                raise No('match')
            pre.append('match %s { %s }' % (txt(sc), ' '.join('%s => { %s }' % (txt(p), cont(x)) for p, x in ar)))
            return '\n'.join(pre)
        if w[0].s == 'let':
            q = next(i for i, x in enumerate(w) if x.s == '=')
            head, v = txt(w[:q + 1]), w[q + 1:]
            if v[0].s == 'match':
                sc, ar = arms(v)
                go = [x for _, x in ar if not diverges(x)]
                if returns(sc, False) or len(go) > 2:
                    raise No('match')
                pre.append('match %s { %s }' % (txt(sc), ' '.join('%s => { %s }' % (txt(p), cont(x, lambda y: '%s { %s };' % (head, y))) for p, x in ar)))
                return '\n'.join(pre)
            if v[0].s == 'if':
                br = branches(v)
                if br is None or br[-1][0] is not None or len([1 for _, x in br if not diverges(x)]) > 2:
                    raise No('if')
                pre.append(' else '.join(('if %s ' % txt(c) if c is not None else '') + '{ %s }' % cont(x, lambda y: '%s { %s };' % (head, y)) for c, x in br))
                return '\n'.join(pre)
            e = next((i for i, x in enumerate(v) if x.s == 'else'), None)
            if e is not None and v[e + 1].s == '{' and not returns(v[:e], False):
                x = v[e + 2:match_close(v, e + 1)]
                pre.append('if %s %s { %s } else { %s }' % (head, txt(v[:e]), unret(src, rest, err_ok, depth + 1), unret(src, x, err_ok, depth + 1)))
                return '\n'.join(pre)
        raise No('a return that cannot be taken out')
    return '\n'.join(pre)


def stmt_head(t, k, lo):
    """first token of the if/match/loop/block expression that token k, an open brace, belongs to"""
    j = k - 1
    while j > lo:
        x = t[j]
        if x.k == 'p' and x.s in CLOSE:
            if x.s == '}' and t[j + 1].s != 'else' and j + 1 != k:
                # struct literal or block inside a condition does not occur here
                break
            if x.s == '}' and j + 1 == k:
                break
            d = 0
            while True:
                if t[j].k == 'p' and t[j].s in CLOSE:
                    d += 1
                elif t[j].k == 'p' and t[j].s in OPEN:
                    d -= 1
                    if d == 0:
                        break
                j -= 1
            j -= 1
            continue
        if x.s == '=':
            y = j - 1
            while y > lo and t[y].s not in ('let', ';', '{', '}'):
                y -= 1
            if t[y].s == 'let' and t[y - 1].s in ('if', 'while'):
                j = y - 1
                continue
            break
        if x.s in (';', '=>', ',') or x.k == 'p' and x.s in OPEN:
            break
        j -= 1
    return j + 1


def is_tail(t, at, c, caller):
    """is the expression of the tokens at..c what the function gives back?"""
    lo, hi = caller.body
    for _ in range(40):
        if t[at - 1].s == 'return':
            return t[c + 1].s in (';', '}', ',')
        g = enclosing(t, at, lo)
        k = g[0] if g else lo
        if t[k].s != '{':
            return False
        e = match_close(t, k)
        if t[at - 1].s == '=>':
            if t[c].s != '}' and t[c + 1].s not in (',', '}'):
                return False
        elif t[at - 1].s in (';', '{', '}'):
            if t[c + 1].s != '}':
                return False
        else:
            return False
        if k == lo:
            return True
        h = stmt_head(t, k, lo)
        if t[h].s == 'return':
            return True
        if not (t[h].s in ('if', 'match') or h == k and t[h - 1].s in ('{', ';', '}', '=>')):
            return False
        if t[h].s == 'match' and t[at - 1].s != '=>' or t[h].s != 'match' and t[at - 1].s == '=>':
            return False
        # to the end of the else chain
        while t[e + 1].s == 'else':
            m = e + 2
            while t[m].s != '{':
                m = match_close(t, m) + 1 if t[m].k == 'p' and t[m].s in OPEN else m + 1
            e = match_close(t, m)
        at, c = h, e
    return False


def strip_life(s):
    return re.sub(r"&\s*'[a-z_]\w*\s*", '&', s)


def one(cx, caller, i, fx, f, at):
    """text for the call of f whose name is token i of cx; at = first token of the call expression"""
    t = cx.t
    ps, slf = params(fx, f)
    o = i + 1
    c = match_close(t, o)
    args, m = [], o + 1
    while m < c:
        q = m
        while q < c and t[q].s != ',':
            if t[q].k == 'p' and t[q].s in OPEN:
                q = match_close(t, q)
            q += 1
        args.append((m, q))
        m = q + 1
    if slf and t[i - 1].s == '::':
        raise No('self passed as an argument')
    if len(args) != len(ps):
        raise No('arguments')
    bt = fx.t[f.body[0] + 1:f.body[1]]
    words = [x.s for x in bt]
    generics = f.generics
    # returns
    rets = [n for n, x in enumerate(bt) if x.k == 'id' and x.s == 'return']
    qs = [n for n, x in enumerate(bt) if x.s == '?']
    ret = strip_life(f.ret) if f.ret else None
    tail = is_tail(t, at, c, caller)
    flat = None
    if rets or qs:
        for g in enclosing(t, at, caller.body[0]):
            if t[g].s == '(' and any(x.s in ('|', '||') for x in t[g:at]):
                raise No('in a closure')
        if not tail:
            if t[c + 1].s != '?' and qs or not ret:
                raise No('returns')
            flat = t[c + 1].s == '?'
            if not returns(bt, flat):
                flat = None
    if any(w in ('async', 'unsafe', 'macro_rules', 'await') for w in words):
        raise No('kind of body')
    lets, repl, roots = [], {}, set()
    for (mut, p, ty), (m, q) in zip(ps, args):
        a = cx.src[t[m].a:t[q - 1].b]
        ty = strip_life(ty.strip())
        if re.match(r'&\s*mut\b', ty):
            w = [x.s for x in t[m:q]]
            if len(w) == 1 and t[m].k == 'id':
                place, how = a, 'var'
                root = w[0]
            elif w[:2] == ['&', 'mut'] and all((x.k == 'id') == (n % 2 == 0) and (n % 2 == 0 or x.s == '.') for n, x in enumerate(t[m + 2:q])) and len(w) > 2:
                place, how = cx.src[t[m + 2].a:t[q - 1].b], 'ref'
                root = w[2]
            else:
                raise No('&mut argument')
            if place != p or how == 'ref':
                if bound(bt, p):
                    raise No('name bound again: ' + p)
                repl[p] = (place, how)
            if root != 'self' and root != p and bound(bt, root):
                raise No('captured: ' + root)
            if root != p and root != 'self' and any(x.k == 'id' and x.s == root and (n == 0 or bt[n - 1].s not in ('.', '::')) and not (n + 1 < len(bt) and bt[n + 1].s in ('(', '::')) for n, x in enumerate(bt)) and root not in [y[1] for y in ps]:
                raise No('captured: ' + root)
            roots.add(root)
        else:
            ann = ': ' + ty
            if any(re.search(r'\b%s\b' % g, ty) for g in generics) or 'impl ' in ty or 'dyn ' in ty:
                ann = ''
            if 'Self' in ty and f.owner and f.owner != caller.owner:
                ann = ''
            lets.append((mut, p, ann, a, set(x.s for x in t[m:q] if x.k == 'id')))
    names = {l[1] for l in lets}
    if roots & {n for n in names if not any(l[1] == n and l[3] == n for l in lets)}:
        raise No('captured by a parameter')
    if 'self' in words and t[i - 1].s != '.':
        raise No('self')
    if slf and t[i - 1].s == '.':
        recv = cx.src[t[at].a:t[i - 2].b]
        if recv != 'self':
            if 'self' not in repl:
                if bound(bt, recv) or recv in names:
                    raise No('captured: ' + recv)
                bare = [n for n, x in enumerate(bt) if x.s == 'self' and not (n + 1 < len(bt) and bt[n + 1].s == '.')]
                if bare:
                    raise No('self is passed on')
                repl['self'] = (recv, 'var')
    body = body_text(fx, f, repl)
    if flat is not None:
        try:
            body = unret(body, lex(body), flat)
        except (IndexError, StopIteration, Lost):
            raise No('shape of the body')
    if 'Self' in words and f.owner != caller.owner:
        if not f.owner:
            raise No('Self')
        body = re.sub(r'\bSelf\b', f.owner, body)
    COUNT[0] += 1
    body = '/*in%d*/%s/*in%d-*/' % (COUNT[0], body, COUNT[0])
    clash = any(lets[a][1] in lets[b][4] and lets[a][3] != lets[a][1] for a in range(len(lets)) for b in range(a + 1, len(lets)))
    if clash:
        s = 'let (%s): (%s) = (%s);' % (', '.join(('mut ' if l[0] else '') + l[1] for l in lets), ', '.join(l[2][2:] or '_' for l in lets), ', '.join(l[3] for l in lets))
    else:
        s = ' '.join('let %s%s%s = %s;' % ('mut ' if l[0] else '', l[1], l[2], l[3]) for l in lets if l[0] or l[1] != l[3] or not re.match(r': &', l[2]))
    if ret:
        ann = ': ' + ret
        if any(re.search(r'\b%s\b' % g, ret) for g in generics) or 'impl ' in ret or ("Self" in ret and f.owner != caller.owner):
            ann = ''
        return '({ %s let __h%s = {%s\n}; __h })' % (s, ann, body), c
    return '({ %s%s\n })' % (s, body), c


def owner_of(cx, caller, name):
    """the type of a local variable or parameter, as far as it is written down"""
    t = cx.t
    for x in range(caller.par[0], caller.par[1]):
        if t[x].s == name and t[x + 1].s == ':':
            for y in range(x + 2, min(x + 8, caller.par[1])):
                if t[y].k == 'id' and t[y].s not in ('mut', 'dyn', 'impl'):
                    return t[y].s
    for x in range(caller.body[0], caller.body[1] - 5):
        if t[x].s == 'let':
            y = x + 2 if t[x + 1].s == 'mut' else x + 1
            if t[y].s == name and t[y + 1].s == '=' and t[y + 2].k == 'id' and t[y + 3].s in ('::', '{'):
                return t[y + 2].s
            if t[y].s == name and t[y + 1].s == ':' and t[y + 2].k == 'id':
                return t[y + 2].s
    return None


def normal(ex):
    """loop { if c { break; } body } -> while !(c) { body }; loop { if c { body } else { break; } } -> while c { body }"""
    out = {}
    for cx in ex.files:
        t, eds = cx.t, []
        for i in range(1, len(t) - 8):
            if t[i].s != 'loop' or t[i].k != 'id' or t[i + 1].s != '{' or t[i + 2].s != 'if' or t[i - 1].s in (':', '=', '(', 'return'):
                continue
            e = match_close(t, i + 1)
            k = i + 3
            while t[k].s != '{':
                k = match_close(t, k) + 1 if t[k].k == 'p' and t[k].s in OPEN else k + 1
            b = match_close(t, k)
            c = cx.src[t[i + 3].a:t[k - 1].b]
            w = [x.s for x in t[k:b + 1]]
            if w in (['{', 'break', ';', '}'], ['{', 'break', '}']) and t[b + 1].s != 'else' and t[i + 3].s != 'let':
                if t[b + 1].s == ';':
                    b += 1
                eds.append((t[i].a, t[b].b, 'while !(%s) {' % c if not (t[i + 3].s == '!' and not any(x.s in ('&&', '||', '==', '!=', '<', '>', '<=', '>=') for x in t[i + 3:k])) else 'while %s {' % c[1:]))
            elif t[b + 1].s == 'else' and [x.s for x in t[b + 2:e]] in (['{', 'break', ';', '}'], ['{', 'break', '}'], ['{', 'break', ';', '}', ';']):
                eds.append((t[i].a, t[k].b, 'while %s {' % c))
                eds.append((t[b].b, t[e].a, '\n'))
                eds.append((t[b].a, t[b].b, ''))
        # let p = (..); v.push(p); -> v.push((..));
        for i in range(1, len(t) - 12):
            if t[i].s == 'let' and t[i + 1].k == 'id' and t[i + 2].s == '=' and t[i + 3].s == '(' and t[i + 4].k == 'num':
                e = match_close(t, i + 3)
                p = t[i + 1].s
                if e + 7 < len(t) and t[e + 1].s == ';' and t[e + 2].k == 'id' and [x.s for x in t[e + 3:e + 9]] == ['.', 'push', '(', p, ')', ';'] and t[e + 9].s == '}':
                    eds.append((t[i].a, t[e + 8].b, '%s.push(%s);' % (t[e + 2].s, cx.src[t[i + 3].a:t[e].b])))
        if eds:
            eds.sort()
            o, pos = [], 0
            for a, b, s in eds:
                if a >= pos:
                    o += [cx.src[pos:a], s]
                    pos = b
            o.append(cx.src[pos:])
            out[cx.path] = ''.join(o)
    return out


def step(ex):
    """one round; {file: new source}, [what was put where]"""
    free, assoc = {}, {}
    for p, f in ex.found.items():
        if f is None or not f.body or f.contract or f.ctx not in ('mod', 'impl') or p in ex.fns:
            continue
        if f.name in f.calls or not f.par:
            continue
        if f.ctx == 'mod':
            free.setdefault(f.name, []).append(f)
        else:
            assoc.setdefault((f.owner, f.name), []).append(f)
    if not free and not assoc:
        return {}, [], []
    out, done, kept = {}, [], []
    for cx in ex.files:
        t, eds = cx.t, []
        for caller in cx.fns:
            if not caller.body:
                continue
            for i in range(caller.body[0] + 1, caller.body[1]):
                x = t[i]
                if x.k != 'id' or t[i + 1].s != '(' or t[i - 1].s == 'fn':
                    continue
                at, cand = i, None
                if t[i - 1].s == '.':
                    if t[i - 2].k == 'id' and t[i - 3].s not in ('.', '::'):
                        own = caller.owner if t[i - 2].s == 'self' else owner_of(cx, caller, t[i - 2].s)
                        cand, at = assoc.get((own, x.s)), i - 2
                elif t[i - 1].s == '::':
                    y = i
                    while t[y - 1].s == '::' and t[y - 2].k == 'id':
                        y -= 2
                    at = y
                    q = t[i - 2].s
                    cand = assoc.get((caller.owner if q == 'Self' else q, x.s)) or (free.get(x.s) if q[:1].islower() else None)
                else:
                    cand = free.get(x.s)
                if not cand or len(cand) != 1 or cand[0] is caller:
                    continue
                f = cand[0]
                try:
                    s, c = one(cx, caller, i, f.fx, f, at)
                    eds.append((t[at].a, t[c].b, s))
                    done.append('%s in %s' % (f.path, caller.path))
                except No as e:
                    kept.append('%s in %s: %s' % (f.path, caller.path, e))
        if eds:
            eds.sort(key=lambda e: (e[0], -e[1]))
            o, pos = [], 0
            for a, b, s in eds:
                if a < pos:
                    continue
                o += [cx.src[pos:a], s]
                pos = b
            o.append(cx.src[pos:])
            out[cx.path] = ''.join(o)
    return out, done, kept


def unused(ex):
    """functions without a contract that are mentioned nowhere any more"""
    cnt = {}
    for cx in ex.files:
        for x in cx.t:
            if x.k == 'id':
                cnt[x.s] = cnt.get(x.s, 0) + 1
    return {p for p, f in ex.found.items() if f and f.body and not f.contract and p not in ex.fns and f.ctx in ('mod', 'impl') and cnt.get(f.name, 0) == 1}
