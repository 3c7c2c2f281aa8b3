"""Turns the crate's sources, as they are in the working tree, into one Verus
file: the code is copied verbatim, contracts from /verif/contracts are spliced
in by item path, and a fixed list of mechanical rewrites is applied (REWRITES
below is printed into the evidence)."""
import os
import re
import sys
import json
import glob
import inline
from rsx import lex, match_close, skip_angle, Lost, OPEN, CLOSE

REWRITES = [
    'attributes and doc comments are dropped (derive is reduced to what Verus needs; serde_support is off)',
    'visibility of every item and field becomes pub; static becomes const',
    'format!(..) becomes an arbitrary String (error texts are not specified)',
    'derive(PartialEq) of an enum without fields is expanded to the comparison of its variants, derive(Eq) dropped with it',
    'derive(Default) is expanded to the field-wise impl Default',
    'E.iter().map(|x| F).collect() and E.iter().fold(0, |a, x| F) are written out as the for loop they stand for',
    'x.len() and x.is_empty() become calls of a trait that specifies them for strings, vectors, slices and maps',
    's.bytes() becomes a vector of the same bytes, m.into_iter() a vector of the same entries',
    'from_be_bytes / to_be_bytes (not used by the crate at present) become verified functions, |_| of a closure a named parameter',
    'vec![(..), ..] becomes a block that pushes its elements in order',
    'a function without a contract (the crate has none at present) is put in place of its calls, see tools/inline.py',
    'loop { if c { break; } .. } becomes while !c { .. }, let p = (..); v.push(p); becomes v.push((..));',
    'match arms on string literals become comparisons with ==',
]


class Contract:
    def __init__(self, path):
        self.path = path
        self.props = []
        self.secs = []          # (key, arg, text)
        self.used = False

    def bind(self, params):
        c = Contract(self.path)
        self.used = True
        f = lambda m: params[int(m.group(1)) - 1] if int(m.group(1)) <= len(params) else m.group(0)
        c.secs = [[k, re.sub(r'\$(\d+)', f, a) if a else a, re.sub(r'\$(\d+)', f, x)] for k, a, x in self.secs]
        return c

    def get(self, key, arg=None):
        return '\n'.join(t for k, a, t in self.secs if k == key and (arg is None or a == arg))


def read_contracts(d):
    fns, items, mods = {}, {}, {}
    for f in sorted(glob.glob(os.path.join(d, '*.vc'))):
        cur = sec = None
        for ln in open(f):
            if ln.startswith('#!'):
                continue
            m = re.match(r'@(fn|item|mod)\s+(\S+)\s*$', ln)
            if m:
                tab = {'fn': fns, 'item': items, 'mod': mods}[m.group(1)]
                if m.group(2) in tab:
                    raise SystemExit('duplicate contract for ' + m.group(2))
                cur = tab[m.group(2)] = Contract(m.group(2))
                sec = None
                cur.secs.append(['text', None, ''])
                sec = cur.secs[-1]
                continue
            m = re.match(r'@([a-z_]+)(?:\s+(.*\S))?\s*$', ln)
            if m and cur is not None:
                cur.secs.append([m.group(1), m.group(2), ''])
                sec = cur.secs[-1]
                continue
            if sec is not None:
                sec[2] += ln
            elif ln.strip() and not ln.startswith('#'):
                raise SystemExit('%s: text outside of a section: %s' % (f, ln))
    return fns, items, mods


ITEM_KW = {'fn', 'struct', 'enum', 'trait', 'impl', 'use', 'mod', 'const', 'static', 'type', 'unsafe', 'extern',
           'macro_rules', 'union', 'async', 'pub'}
# in place of a body that is not looked at (external_body instead of it makes Verus order the program in a way
# in which trait impls do not see their own spec functions)
NO_BODY = ' proof { assume(false); } vstd::pervasive::unreached()\n'
DERIVES = {'Clone', 'Copy', 'PartialEq', 'Eq', 'Debug'}


class Fn:
    pass


class FileX:
    """one source file -> edited text + list of functions"""

    def __init__(self, ex, path, modpath):
        self.ex, self.path, self.mod = ex, path, modpath
        self.src = ex.override.get(path) or open(path, encoding='utf-8').read()
        ex.files.append(self)
        self.t = lex(self.src)
        self.inl = [(m.start(), self.src.index('/*%s-*/' % m.group(1), m.end())) for m in re.finditer(r'/\*(in\d+)\*/', self.src)]
        self.edits = []
        self.children = []
        self.fns = []
        self.items(0, len(self.t), '::'.join(modpath), None, 'mod')

    def edit(self, a, b, s):
        self.edits.append((a, b, s))

    # ---------------------------------------------------------------- items
    def items(self, i, end, path, owner, ctx):
        t = self.t
        while i < end:
            start = i
            attrs = []
            while i < end and t[i].s == '#':
                j = i + 1
                if t[j].s == '!':
                    j += 1
                k = match_close(t, j)
                attrs.append((i, k))
                i = k + 1
            if i >= end:
                break
            vis_at = i
            if t[i].s == 'pub':
                i += 1
                if t[i].s == '(':
                    i = match_close(t, i) + 1
            vis = (vis_at, i)
            while t[i].s in ('unsafe', 'async', 'default') or (t[i].s == 'const' and t[i + 1].s in ('fn', 'unsafe', 'extern')):
                i += 1
            kw = t[i].s
            stop = self.item_end(i, end)
            drop = False
            derives = []
            for a, b in attrs:
                name = t[a + 1 if t[a + 1].s != '!' else a + 2]
                words = [x.s for x in t[a:b + 1]]
                if 'cfg' == words[2]:
                    # default features only; cfg(test) off
                    if 'not' not in words:
                        drop = True
                if words[2] == 'derive':
                    derives = [w for w in words[3:] if w not in ('(', ')', ',', ']', '::')]
            if drop:
                self.edit(t[start].a, t[stop - 1].b, '')
                i = stop
                continue
            for a, b in attrs:
                self.edit(t[a].a, t[b].b, '')
            if kw == 'mod' and t[i + 2].s == ';':
                self.children.append((t[i + 1].s, t[start].a, t[stop - 1].b))
                self.edits = [e for e in self.edits if e[0] < t[start].a]
                i = stop
                continue
            if ctx in ('mod', 'impl') and kw not in ('impl', 'macro_rules'):
                if vis[0] == vis[1]:
                    self.edit(t[vis[0]].a, t[vis[0]].a, 'pub ')
                else:
                    self.edit(t[vis[0]].a, t[vis[1] - 1].b, 'pub')
            if kw == 'fn':
                self.function(i, stop, path, owner, ctx, t[start].a)
            elif kw == 'use':
                pass
            elif kw == 'mod':
                name = t[i + 1].s
                self.items(i + 3, stop - 1, path + '::' + name if path else name, None, 'mod')
            elif kw in ('static', 'const'):
                if kw == 'static':
                    self.edit(t[i].a, t[i].b, 'const')
            elif kw == 'struct' or kw == 'enum':
                self.datatype(kw, i, stop, path, derives, t[start].a)
            elif kw == 'trait':
                name = t[i + 1].s
                p = (path + '::' + name) if path else name
                b = self.find(i, stop, '{')
                self.splice_item(p, t[start].a, t[b].b, None)
                self.items(b + 1, stop - 1, p, name, 'trait')
            elif kw == 'impl':
                j = i + 1
                if t[j].s == '<':
                    j = skip_angle(t, j)
                b = self.find(j, stop, '{')
                head = t[j:b]
                # "for" at depth 0 separates trait from type
                names, cur, d, k = [], [], 0, 0
                while k < len(head):
                    if head[k].s == '<':
                        k2 = skip_angle(head, k)
                        k = k2
                        continue
                    if head[k].s == 'where':
                        break
                    if head[k].s == 'for':
                        names.append(cur)
                        cur = []
                    elif head[k].k == 'id':
                        cur.append(head[k].s)
                    k += 1
                names.append(cur)
                ty = names[-1][-1]
                p = (path + '::' + ty) if path else ty
                tr = None
                if len(names) == 2:
                    tr = names[0][-1]
                    p += '::' + tr
                self.splice_item(p, t[start].a, t[b].b, tr)
                self.items(b + 1, stop - 1, p, ty, 'traitimpl' if tr else 'impl')
            elif kw == 'type':
                pass
            else:
                raise Lost('%s: item kind %s' % (self.path, kw))
            i = stop

    def find(self, i, end, s):
        t = self.t
        while i < end:
            if t[i].s == s and t[i].k == 'p':
                return i
            if t[i].k == 'p' and t[i].s in OPEN:
                i = match_close(t, i)
            i += 1
        raise Lost('%s: no %s' % (self.path, s))

    def item_end(self, i, end):
        """index after the item starting at the keyword t[i]"""
        t = self.t
        kw = t[i].s
        while i < end:
            if t[i].k == 'p':
                if t[i].s == ';':
                    return i + 1
                if t[i].s == '{':
                    j = match_close(t, i)
                    if kw in ('use', 'const', 'static', 'type'):
                        i = j
                    else:
                        return j + 1
                elif t[i].s in OPEN:
                    i = match_close(t, i)
            i += 1
        return end

    def splice_item(self, p, at, body_at, tr):
        c = self.ex.items.get(p)
        if c:
            c.used = True
            if c.get('attr'):
                self.edit(at, at, c.get('attr').strip() + '\n')
            if body_at is not None and c.get('members'):
                self.edit(body_at, body_at, '\n' + c.get('members'))

    def datatype(self, kw, i, stop, path, derives, at):
        t = self.t
        name = t[i + 1].s
        p = (path + '::' + name) if path else name
        keep = [d for d in derives if d in DERIVES]
        body = [x.s for x in t[i + 2:stop]]
        variants = self.plain_variants(i, stop) if kw == 'enum' else None
        if variants:
            # equality of an enum without fields: derived (written out here) or hand written, it has to be ==
            manual = re.search(r'impl\s+PartialEq(?:<\s*(?:Self|%s)\s*>)?\s+for\s+%s\b' % (name, name), self.src)
            s = ''
            if 'PartialEq' in keep:
                keep.remove('PartialEq')
                derives = [d for d in derives if d != 'PartialEq']
                ep = p + '::PartialEq::eq'
                self.ex.reg(ep, p + '::PartialEq', None)
                s += '\nimpl PartialEq for %s { fn eq(&self, other: &%s) -> (r: bool)\n{ //@FN %s\n match (self, other) { %s } } //@END %s\n}\n' % (
                    name, name, ep, ', '.join(['(%s::%s, %s::%s) => true' % (name, v, name, v) for v in variants] + (['_ => false'] if len(variants) > 1 else [])), ep)
            if s or manual:
                s += '\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &%s) -> bool { *self == *other } }\n' % (name, name)
                self.edit(t[stop - 1].b, t[stop - 1].b, s)
        txt = '#[derive(%s)]\n' % ', '.join(keep) if keep else ''
        c = self.ex.items.get(p)
        if c:
            c.used = True
            if c.get('derive'):
                keep = c.get('derive').split()
                txt = '#[derive(%s)]\n' % ', '.join(k for k in keep if k in derives or k in ('Structural',)) if keep else ''
            if c.get('attr'):
                txt += c.get('attr').strip() + '\n'
        self.edit(at, at, txt)
        j = i + 2
        if t[j].s == '<':
            j = skip_angle(t, j)
        fields = []
        if kw == 'struct' and t[j].s != ';':
            b = self.find(j, stop, '{') if '{' in [x.s for x in t[j:stop]] else None
            if b is not None:
                e = match_close(t, b)
                k = b + 1
                while k < e:
                    while t[k].s == '#':
                        m = match_close(t, k + 1)
                        self.edit(t[k].a, t[m].b, '')
                        k = m + 1
                    if t[k].s == 'pub':
                        v = k
                        k += 1
                        if t[k].s == '(':
                            k = match_close(t, k) + 1
                        self.edit(t[v].a, t[k - 1].b, 'pub')
                    else:
                        self.edit(t[k].a, t[k].a, 'pub ')
                    fields.append(t[k].s)
                    k += 2
                    d = 0
                    while k < e:
                        if t[k].s == '<':
                            k = skip_angle(t, k)
                            continue
                        if t[k].k == 'p' and t[k].s in OPEN:
                            k = match_close(t, k)
                        elif t[k].s == ',':
                            k += 1
                            break
                        k += 1
        self.ex.types[p] = dict(kind=kw, fields=fields, derives=derives)
        if 'Default' in derives:
            body = ', '.join('%s: Default::default()' % f for f in fields)
            dp = p + '::Default::default'
            cc = self.ex.fns.get(dp)
            ens = ''
            if cc:
                cc.used = True
                ens = cc.get('text')
            self.ex.reg(dp, '%s::Default' % p, None)
            if kw != 'struct':
                raise Lost('derive(Default) on enum ' + p)
            # fields are initialised through the standard library's Default impls
            s = '\nimpl Default for %s { fn default() -> (r: %s)\n%s\n{ //@FN %s\n%s { %s } } //@END %s\n}\n' % (
                name, name, ens, dp, name, ', '.join('%s: %s' % (f, self.default_of(i, stop, f)) for f in fields), dp)
            self.edit(t[stop - 1].b, t[stop - 1].b, s)

    def plain_variants(self, i, stop):
        """names of the variants of an enum whose variants carry nothing"""
        t = self.t
        b = self.find(i, stop, '{')
        e, out, k = match_close(t, b), [], b + 1
        while k < e:
            while t[k].s == '#':
                k = match_close(t, k + 1) + 1
            if t[k].k != 'id':
                return None
            out.append(t[k].s)
            k += 1
            if t[k].s == '=':
                while k < e and t[k].s != ',':
                    k += 1
            if k < e and t[k].s != ',':
                return None
            k += 1
        return out

    def default_of(self, i, stop, f):
        t = self.t
        for k in range(i, stop):
            if t[k].s == f and t[k + 1].s == ':':
                ty = t[k + 2].s
                if ty == 'Option':
                    return 'None'
                if ty == 'bool':
                    return 'false'
                if ty in ('u8', 'u16', 'u32', 'u64', 'usize'):
                    return '0'
                if ty == 'Vec':
                    return 'Vec::new()'
                if ty == 'String':
                    return 'String::new()'
                if ty in ('UserProperties', 'HashMap'):
                    return ty + '::new()'
                return 'Default::default()'
        raise Lost('field ' + f)

    # ------------------------------------------------------------ functions
    def function(self, i, stop, path, owner, ctx, at):
        t = self.t
        name = t[i + 1].s
        p = (path + '::' + name) if path else name
        j = i + 2
        if t[j].s == '<':
            j = skip_angle(t, j)
        if t[j].s != '(':
            raise Lost(p)
        par_end = match_close(t, j)
        params, m, n = [], j + 1, 0
        while m < par_end:
            q = m
            while q < par_end and t[q].s != ',':
                if t[q].s == '<':
                    q = skip_angle(t, q)
                    continue
                if t[q].k == 'p' and t[q].s in OPEN:
                    q = match_close(t, q)
                q += 1
            words = [x.s for x in t[m:q]]
            if 'self' in words and ':' not in words:
                pass
            else:
                h = m + 1 if t[m].s == 'mut' else m
                n += 1
                if t[h].s == '_':
                    self.edit(t[h].a, t[h].b, '_p%d' % n)
                    params.append('_p%d' % n)
                elif t[h + 1].s == ':':
                    params.append(t[h].s)
                else:
                    params.append('_')
            m = q + 1
        k = par_end + 1
        ret = None
        if t[k].s == '->':
            a = k + 1
            k = a
            while t[k].s not in ('{', ';', 'where') or t[k].k not in ('p', 'id'):
                if t[k].s == '<':
                    k = skip_angle(t, k)
                    continue
                if t[k].k == 'p' and t[k].s in OPEN:
                    k = match_close(t, k)
                k += 1
            ret = (a, k)
        while t[k].s not in ('{', ';'):
            k += 1
        has_body = t[k].s == '{'
        c = self.ex.fns.get(p)
        f = Fn()
        f.path, f.file = p, self.path
        f.body = (k, stop - 1) if has_body else None
        f.line = self.src.count('\n', 0, t[i].a) + 1
        if c:
            c = c.bind(params)
        f.contract = c
        f.ctx = ctx
        f.name = name
        f.fx, f.owner, f.par = self, owner, (j, par_end)
        f.generics = [t[x].s for x in range(i + 2, j) if t[x].k == 'id' and t[x - 1].s in ('<', ',')] if t[i + 2].s == '<' else []
        f.ret = self.src[t[ret[0]].a:t[ret[1] - 1].b] if ret else None
        f.sig = ' '.join(x.s for x in t[i + 2:k])
        f.toks = ' '.join(x.s for x in t[i:stop])
        f.calls = set(t[x].s for x in range(k, stop - 1) if t[x].k == 'id' and
                      (t[x + 1].s == '(' or (t[x + 1].s == '::' and t[x + 2].s == '<'))) if has_body else set()
        self.fns.append(f)
        f.demoted = None
        f.hints_lost = []
        self.ex.reg(p, path, f)
        force = self.ex.demote.get(p)
        if p in self.ex.gone:
            # every call of it was replaced by its body
            if has_body:
                self.edit(t[k].b, t[stop - 1].a, NO_BODY)
            return
        nohints = force and force.startswith('hints:')
        if nohints:
            # once more without the proof hints; contract and loop invariants stay
            f.hints_lost.append(force[6:])
            force = None
        loops = self.loops(k + 1, stop - 1) if has_body else []
        f.loops = len(loops)
        if c:
            c.used = True
            want = c.get('loops')
            nl = [s for s in c.secs if s[0] == 'loop']
            if has_body and not force and len(nl) != len(loops):
                force = 'the contract has %d loop invariants, the function has %d loops' % (len(nl), len(loops))
        if has_body:
            e1, err = [], None
            if not force:
                try:
                    e1 = self.rewrite_body(k, stop - 1, c, loops)
                    if c:
                        e1 += self.splice_body(c, k, stop - 1, loops, nohints, f.hints_lost)
                except Lost as e:
                    force = str(e)
            if not force:
                self.edits += e1
        if c and ret and c.get('ret'):
            self.edit(t[ret[0]].a, t[ret[0]].a, '(%s: ' % (c.get('ret').strip()))
            self.edit(t[ret[1] - 1].b, t[ret[1] - 1].b, ')')
        elif c and ret:
            self.edit(t[ret[0]].a, t[ret[0]].a, '(r: ')
            self.edit(t[ret[1] - 1].b, t[ret[1] - 1].b, ')')
        attr = ''
        if c and c.get('attr'):
            attr += c.get('attr').strip() + '\n'
        if c and has_body and not force and any(s[0] in ('loop', 'body_start', 'before', 'after', 'isolate') for s in c.secs) and 'spinoff_prover' not in attr:
            # a solver of its own: its result does not depend on the other functions of the module
            attr += '#[verifier::spinoff_prover]\n'
        if force:
            f.demoted = force
        if attr:
            self.edits.insert(0, (at, at, attr))
        txt = ''
        if c:
            txt = '\n' + c.get('text').rstrip() + '\n'
        if has_body:
            b = t[k]
            bs = c.get('body_start') if c and not force and not nohints else ''
            self.edit(b.a, b.a, txt)
            e = t[stop - 1]
            if force:
                self.edit(b.b, e.a, ' //@FN %s\n%s' % (p, NO_BODY))
            else:
                self.edit(b.b, b.b, ' //@FN %s\n%s' % (p, bs))
            self.edit(e.b, e.b, ' //@END %s\n' % p)
        else:
            self.edit(t[k].a, t[k].a, txt)

    def loops(self, i, end):
        """(keyword, body open) in source order; closures are not descended into specially"""
        t, out = self.t, []
        for k in range(i, end):
            if t[k].k == 'id' and t[k].s in ('for', 'while', 'loop'):
                if t[k].s == 'for' and t[k + 1].s == '<':
                    continue
                b = k + 1
                while b < end and t[b].s != '{':
                    if t[b].k == 'p' and t[b].s in OPEN:
                        b = match_close(t, b)
                    b += 1
                out.append((k, b, match_close(t, b)))
            elif t[k].s == '.' and [y.s for y in t[k:k + 5]] == ['.', 'iter', '(', ')', '.'] and t[k + 5].s in ('map', 'fold'):
                out.append((k, None, None))
        return out

    def rewrite_body(self, i, end, c, loops):
        t, ed = self.t, []
        k = i
        while k < end:
            x = t[k]
            if x.k == 'id' and t[k + 1].s == '!' and t[k + 2].s in OPEN and x.s == 'format':
                e = match_close(t, k + 2)
                ed.append((x.a, t[e].b, 'crate::vspec::opaque_string()'))
                k = e + 1
                continue
            if x.k == 'id' and x.s == 'vec' and t[k + 1].s == '!' and t[k + 2].s == '[' and t[k + 3].s == '(':
                e = match_close(t, k + 2)
                commas, y = [], k + 3
                while y < e:
                    if t[y].k == 'p' and t[y].s in OPEN:
                        y = match_close(t, y)
                    elif t[y].s == ',':
                        commas.append(y)
                    elif t[y].s == ';':
                        commas = None
                        break
                    y += 1
                if commas is not None:
                    hook = lambda q, y: (c.get(q) if c else '').replace('$X', '__v').replace('$ID', t[y + 1].s + 'u8') if t[y].s == '(' and t[y + 1].k == 'num' else ''
                    last = bool(commas) and commas[-1] == e - 1
                    ed.append((x.a, t[k + 2].b, '({ let mut __v = Vec::new();\n%s __v.push(' % hook('before_push_stmt', k + 3)))
                    prev = k + 3
                    for y in commas[:-1] if last else commas:
                        ed.append((t[y].a, t[y].b, ');\n%s%s __v.push(' % (hook('after_push_stmt', prev), hook('before_push_stmt', y + 1))))
                        prev = y + 1
                    if last:
                        ed.append((t[e - 1].a, t[e - 1].b, ''))
                    ed.append((t[e].a, t[e].b, ');\n%s __v })' % hook('after_push_stmt', prev)))
            k += 1
        # s.bytes() and m.into_iter()
        for k in range(i, end):
            if [y.s for y in t[k:k + 4]] == ['.', 'bytes', '(', ')']:
                a = self.chain_start(k)
                ed.append((t[a].a, t[a].a, 'crate::vspec::str_bytes(&'))
                ed.append((t[k].a, t[k + 3].b, ')'))
            if [y.s for y in t[k:k + 4]] == ['.', 'into_iter', '(', ')']:
                ed.append((t[k + 1].a, t[k + 1].b, 'v_into_iter'))
            for w in ('len', 'is_empty'):
                if [y.s for y in t[k:k + 4]] == ['.', w, '(', ')']:
                    ed.append((t[k + 1].a, t[k + 1].b, 'v_' + w))
            # big endian conversions; a closure that ignores its argument
            if t[k].s in ('u16', 'u32') and [y.s for y in t[k + 1:k + 4]] == ['::', 'from_be_bytes', '(']:
                ed.append((t[k].a, t[k + 2].b, 'crate::vspec::be_' + t[k].s))
            if [y.s for y in t[k:k + 4]] == ['.', 'to_be_bytes', '(', ')']:
                ed.append((t[k + 1].a, t[k + 1].b, 'v_to_be_bytes'))
            if t[k - 1].s in ('(', ',') and [y.s for y in t[k:k + 3]] == ['|', '_', '|']:
                ed.append((t[k + 1].a, t[k + 1].b, '_c'))
        # match arms on string literals
        for k in range(i, end):
            if t[k].k == 'str' and t[k + 1].s == '=>' and t[k - 1].s in ('{', ',', '}'):
                ed.append((t[k].a, t[k].b, '__s if crate::vspec::str_eq(__s, %s)' % t[k].s))
        # E.iter().map(|x| F).collect()
        for k in range(i, end):
            if t[k].s == '.' and [y.s for y in t[k:k + 6]] == ['.', 'iter', '(', ')', '.', 'map'] and t[k + 6].s == '(':
                e = match_close(t, k + 6)
                if [y.s for y in t[e + 1:e + 5]] != ['.', 'collect', '(', ')']:
                    raise Lost('iterator chain')
                a = self.chain_start(k)
                if t[k + 7].s != '|' or t[k + 9].s != '|':
                    raise Lost('closure shape')
                v = t[k + 8].s
                E = self.src[t[a].a:t[k].a]
                F = self.lens(self.src[t[k + 10].a:t[e].a])
                ed.append((t[a].a, t[e + 4].b, self.ex.map_collect(E, v, F, self.vinv(c, loops, k))))
            if t[k].s == '.' and [y.s for y in t[k:k + 6]] == ['.', 'iter', '(', ')', '.', 'fold'] and t[k + 6].s == '(':
                e = match_close(t, k + 6)
                if [y.s for y in t[k + 7:k + 10]] != ['0', ',', '|'] or t[k + 11].s != ',' or t[k + 13].s != '|':
                    raise Lost('closure shape')
                a = self.chain_start(k)
                E = self.src[t[a].a:t[k].a]
                F = self.lens(self.src[t[k + 14].a:t[e].a].rstrip().rstrip(','))
                ed.append((t[a].a, t[e].b, self.ex.fold(E, t[k + 10].s, t[k + 12].s, F, self.vinv(c, loops, k))))
        return ed

    def lens(self, s):
        return re.sub(r'\.(len|is_empty)\(\)', r'.v_\1()', s)

    def vinv(self, c, loops, k):
        n = [x[0] for x in loops].index(k)
        if not c:
            return [''] * 4
        g = lambda key: ''.join(x[2] for x in c.secs if x[0] == key and x[1].split()[0] == str(n))
        return [g('loop'), g('loop_start'), g('loop_end'), g('after_loop')]

    def chain_start(self, k):
        """k is the '.' after a place expression a.b.c"""
        t = self.t
        k -= 1
        while t[k].k == 'id' and t[k - 1].s == '.':
            k -= 2
        if t[k].k != 'id':
            raise Lost('iterator chain')
        return k

    def statements(self, i, end):
        """(first token, end) of the statements between i and end, without a final expression"""
        t, out = self.t, []
        while i < end:
            j = i
            block = t[i].k == 'id' and t[i].s in ('if', 'for', 'while', 'loop', 'match', 'unsafe')
            while j < end:
                if t[j].k == 'p' and t[j].s in OPEN:
                    brace = t[j].s == '{'
                    j = match_close(t, j)
                    if block and brace and not (j + 1 < end and t[j + 1].s == 'else'):
                        break
                elif t[j].s == ';':
                    break
                j += 1
            if j < end:
                out.append((i, j + 1))
            i = j + 1
        return out

    def splice_body(self, c, k, end, loops, nohints, lost):
        t, ed = self.t, []
        for key, arg, txt in c.secs:
            if nohints and key != 'loop':
                continue
            if 'loop' in key and key != 'loops':
                if int(arg.split()[0]) >= len(loops):
                    raise Lost('loop %s not found' % arg)
                if loops[int(arg.split()[0])][1] is None:
                    continue
            if key == 'loop':
                n = int(arg.split()[0])
                kw, b, e = loops[n]
                ed.append((t[b].a, t[b].a, '\n' + txt))
                ws = arg.split()
                if len(ws) > 1 and t[kw].s == 'for':
                    d = kw
                    while t[d].s != 'in':
                        if t[d].k == 'p' and t[d].s in OPEN:
                            d = match_close(t, d)
                        d += 1
                    ed.append((t[d].b, t[d].b, ' %s:' % ws[1]))
            elif key == 'loop_start':
                kw, b, e = loops[int(arg)]
                ed.append((t[b].b, t[b].b, '\n' + txt))
            elif key == 'loop_end':
                kw, b, e = loops[int(arg)]
                ed.append((t[e].a, t[e].a, ('' if t[e - 1].s in (';', '{', '}') else ';') + '\n' + txt))
            elif key == 'before_loop':
                kw, b, e = loops[int(arg)]
                ed.append((t[kw].a, t[kw].a, '\n' + txt))
            elif key == 'after_loop':
                kw, b, e = loops[int(arg)]
                ed.append((t[e].b, t[e].b, '\n' + txt))
            elif key in ('before_push_stmt', 'after_push_stmt'):
                # statements of the body that push one pair (ID, ..)
                if any(t[x].s == '.' and t[x + 1].s == 'push' and t[x + 2].s == '(' and not (t[x + 3].s == '(' and t[x + 4].k == 'num') for x in range(k + 1, end - 4)):
                    lost.append('anchor not found: push of a pair')
                for a, b in self.statements(k + 1, end):
                    h = [x for x in range(a, b) if t[x].k == 'id' and [y.s for y in t[x + 1:x + 5]] == ['.', 'push', '(', '('] and t[x + 5].k == 'num']
                    if len(h) == 1:
                        at = t[a].a if key == 'before_push_stmt' else t[b - 1].b
                        ed.append((at, at, '\n' + txt.replace('$X', t[h[0]].s).replace('$ID', t[h[0] + 5].s + 'u8')))
            elif key in ('before', 'after', 'isolate'):
                m = re.match(r'(\d+)\s+(.*)$', arg)
                n, pat = (int(m.group(1)), m.group(2)) if m else (0, arg)
                pt = [x.s for x in lex(pat)]
                hits = [x for x in range(k + 1, end) if t[x].s == pt[0] and [y.s for y in t[x:x + len(pt)]] == pt]
                # first outside of what was put in place of a call
                own = [x for x in hits if not any(a < t[x].a < b for a, b in self.inl)]
                hits = own if len(own) > n else hits
                if len(hits) <= n:
                    lost.append('anchor not found: ' + pat)
                    continue
                h = hits[n]
                if key == 'isolate':
                    # the rest of the body, verified on its own from the given facts:
                    # a loop that returns in its first round
                    d, x = 0, k + 1
                    while x < h:
                        if t[x].k == 'p' and t[x].s in OPEN and match_close(t, x) > h:
                            raise Lost('isolate inside a block')
                        x = (match_close(t, x) if t[x].k == 'p' and t[x].s in OPEN else x) + 1
                    ed.append((t[h].a, t[h].a, '\n#[verifier::loop_isolation(true)] loop\n' + txt + 'decreases 0int\n{ return {\n'))
                    ed.append((t[end].a, t[end].a, '\n}; }'))
                    continue
                at = t[h].a if key == 'before' else t[h + len(pt) - 1].b
                ed.append((at, at, '\n' + txt))
        return ed

    def text(self):
        # stable order: by position; insertions at one point keep their order
        out, pos = [], 0
        eds = sorted(enumerate(self.edits), key=lambda x: (x[1][0], x[1][1] != x[1][0], x[0]))
        # drop edits inside a deleted/replaced range
        last_end = -1
        for _, (a, b, s) in eds:
            if a < last_end:
                if b <= last_end:
                    continue
                raise Lost('overlapping edits in ' + self.path)
            out.append(self.src[pos:a])
            out.append(s)
            pos = b
            if b > a:
                last_end = b
        out.append(self.src[pos:])
        # comments are kept by the source; doc comments would become attributes
        return ''.join(out)


class Extract:
    def __init__(self, repo, contracts, demote=None):
        self.repo = repo
        self.fns, self.items, self.mods = read_contracts(contracts)
        self.demote = demote or {}
        self.types = {}
        self.found = {}
        self.nmc = 0
        self.files = []
        self.override, self.gone = {}, set()
        self.inlined, self.not_inlined = [], []
        self.renamed = {}       # path in the contracts -> path in the source

    def rename(self, sigs):
        """functions of another name that take the place of one with a contract: same impl, same signature"""
        gone = [p for p in self.fns if p not in self.found and p in sigs]
        free = {}
        for p, f in self.found.items():
            if f and p not in self.fns and f.body:
                free.setdefault((p.rsplit('::', 1)[0], f.sig), []).append(p)
        out = {}
        for p in gone:
            k = (p.rsplit('::', 1)[0], sigs[p])
            if len(free.get(k, [])) == 1 and len([q for q in gone if (q.rsplit('::', 1)[0], sigs[q]) == k]) == 1:
                out[p] = free[k][0]
        return out

    def rename_as(self, ren):
        self.renamed = ren
        for old, new in ren.items():
            self.fns[new] = self.fns.pop(old)

    def reg(self, p, path, f):
        if p in self.found and f is not None:
            raise Lost('function %s twice' % p)
        self.found[p] = f

    def map_collect(self, E, v, F, inv):
        return ('({ let mut __out = Vec::new(); for %s in __it: %s.iter()\n%s\n { %s __out.push(%s); %s } %s __out })') % (
            v, E, inv[0], inv[1], F, inv[2], inv[3])

    def fold(self, E, acc, v, F, inv):
        return ('({ let mut %s = 0usize; for %s in __it: %s.iter()\n%s\n { %s %s = %s; %s } %s %s })') % (
            acc, v, E, inv[0], inv[1], acc, F, inv[2], inv[3], acc)

    def module(self, path, modpath):
        fx = FileX(self, path, modpath)
        d = os.path.dirname(path)
        stem = os.path.splitext(os.path.basename(path))[0]
        cd = d if stem in ('lib', 'mod') else os.path.join(d, stem)
        for name, a, b in fx.children:
            for cand in (os.path.join(cd, name + '.rs'), os.path.join(cd, name, 'mod.rs')):
                if os.path.exists(cand):
                    fx.edits.append((a, b, self.module(cand, modpath + [name])))
                    break
            else:
                raise Lost('module file for ' + name)
        body = fx.text()
        body = re.sub(r'(?m)^\s*//[/!].*$', '', body)
        if not modpath:
            return body
        mp = '::'.join(modpath)
        extra = ''
        groups = ['vgroup']
        if mp in self.mods:
            self.mods[mp].used = True
            extra = self.mods[mp].get('text')
            groups += self.mods[mp].get('broadcast').split()
        return 'pub mod %s {\n#[allow(unused_imports)]\nuse vstd::prelude::*;\n#[allow(unused_imports)]\nuse crate::vspec::*;\nbroadcast use {%s};\n%s\n%s\n}\n' % (modpath[-1], ', '.join('crate::vspec::' + g for g in groups), body, extra)

    def run(self):
        lib = self.module(os.path.join(self.repo, 'src/lib.rs'), [])
        lib = re.sub(r'(?m)^\s*//[/!].*$', '', lib)
        return lib


def generate(repo, verif, demote=None):
    inline.COUNT[0] = 0
    over, done, kept, ren = {}, [], [], None
    for rnd in range(9):
        ex = Extract(repo, os.path.join(verif, 'contracts'), demote)
        ex.override = over
        ex.rename_as(ren or {})
        lib = ex.run()
        if ren is None:
            ren = ex.rename(json.load(open(os.path.join(verif, 'contracts', 'sigs.json'))))
            if ren:
                continue
        if rnd == (1 if ren else 0):
            new = inline.normal(ex)
            if new:
                over = dict(over, **new)
                continue
        if rnd < 8:
            new, d, kept = inline.step(ex)
            if new:
                over = dict(over, **new)
                done += d
                continue
        break
    ex.not_inlined = kept
    if done:
        gone = inline.unused(ex)
        ex = Extract(repo, os.path.join(verif, 'contracts'), demote)
        ex.rename_as(ren)
        ex.override, ex.gone, ex.inlined, ex.not_inlined = over, gone, done, kept
        lib = ex.run()
    spec, thm = '', ''
    # contracts for std functions that the crate does not use at present: only what the text mentions
    for f in sorted(glob.glob(os.path.join(verif, 'spec', 'opt', '*.rs'))):
        for pat, t in re.findall(r'(?ms)^//@opt (\S+)\n(.*?)(?=^//@opt |\Z)', open(f).read()):
            if re.search(pat, lib):
                spec += t
    for f in sorted(glob.glob(os.path.join(verif, 'spec', '*.rs'))):
        t = '// ---- %s\n' % os.path.basename(f) + open(f).read() + '\n'
        if os.path.basename(f) >= '80':
            thm += t
        else:
            spec += t
    out = ('#![feature(allocator_api)]\n#![feature(pattern)]\n#![verifier::allow(autoderive_clone_without_spec)]\n#![allow(unreachable_code, unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, mismatched_lifetime_syntaxes, unused_assignments, unexpected_cfgs)]\n'
           'use vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n%s\npub mod vspec {\nuse vstd::prelude::*;\n%s\n}\n'
           'pub mod vthm {\nuse vstd::prelude::*;\nuse crate::vspec::*;\n%s\n}\n}\nfn main() {}\n') % (lib, spec, thm)
    return ex, out


if __name__ == '__main__':
    ex, out = generate(sys.argv[1], sys.argv[2])
    open(sys.argv[3], 'w').write(out)
    if len(sys.argv) > 4:
        json.dump({p: f.sig for p, f in sorted(ex.found.items()) if f and f.body and p in ex.fns}, open(sys.argv[4], 'w'), indent=0)
    miss = [c.path for tab in (ex.fns, ex.items, ex.mods) for c in tab.values() if not c.used]
    print('functions: %d, with contract: %d' % (len(ex.found), sum(1 for p in ex.found if p in ex.fns)))
    print('unused contracts:', miss)
    print('no contract:', [p for p in ex.found if p not in ex.fns])
    print('demoted:', {p: f.demoted for p, f in ex.found.items() if f and f.demoted})
