"""C19: the text of SVG elements."""
import ast
import itertools
import re

import gvn
import lang
from gvn import NONE, TRUE, Unknown, gate, show, text
from props_c import SELF, consistent, rule_examples, settle
from props_h import NotUnderstood, bare, mention, terms
from report import Report


class Broken(Exception):
    pass


class Texts(gvn.GVN):
    """Value numbering in which lists of strings are values, and the writes
    to streams and the calls of the element method are recorded."""

    def __init__(self, resolve, signature=None):
        super().__init__(resolve)
        self.signature = signature
        self.events = []        # (kind, payload, guards, loops, node)

    def event(self, kind, payload, e):
        self.events.append((kind, payload, self.guards, self.loops, e))
        return NONE

    # lists of strings
    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unknown('starred')
        return ('lst',) + tuple(self.expr(x) for x in e.elts)

    def e_ListComp(self, e):
        return self.comp(e, 'seq', e.elt)

    def grown(self, a, more):
        if a[0] == 'ite':
            return gate(a[1], self.grown(a[2], more), self.grown(a[3], more))
        if a[0] == 'lst':
            return a + more
        return ('lst', ('all', a)) + more

    def listed(self, t):
        return t[0] == 'lst' or t[0] == 'phi' and self.listed(t[2]) or \
            t[0] == 'ite' and self.listed(t[2]) and self.listed(t[3]) or \
            t[0] == 'exit' and self.listed(t[1])

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
            old = self.name(s.target.id)
            if self.listed(old):
                self.assign(s.target, self.grown(
                    old, self.members(self.expr(s.value))))
                return
        super().s_AugAssign(s)

    def members(self, v):
        if v[0] in ('lst', 'tuple'):
            return v[1:]
        return (('all', v),)

    def e_BinOp(self, e):
        if isinstance(e.op, ast.Add):
            a, b = self.expr(e.left), self.expr(e.right)
            if self.listed(a):
                return self.grown(a, self.members(b))
            return self.sum(a, b)
        return super().e_BinOp(e)

    def sum(self, a, b):
        if self.as_text(a) == a or self.as_text(b) == b:
            return text(a, b)
        return gvn.binary('+', self.settled(a), self.settled(b))

    def iterable(self, t):
        if t[0] == 'new' and t[1] == 'set':
            return ('keys', t)
        return super().iterable(t)

    def joined(self, sep, a):
        if a[0] == 'ite':
            return gate(a[1], self.joined(sep, a[2]), self.joined(sep, a[3]))
        if a[0] in ('lst', 'tuple'):
            if sep == '':
                return text(*[x[1] if x[0] == 'all' else x for x in a[1:]])
            if not any(x[0] == 'all' for x in a[1:]):
                parts = []
                for i, x in enumerate(a[1:]):
                    parts += ([('c', sep)] if i else []) + [x]
                return text(*parts)
        if sep == '' and a[0] == 'exit':
            return a
        return ('mcall', 'join', ('c', sep), a)

    # calls
    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Attribute):
            if f.attr == 'append' and isinstance(f.value, ast.Name) and \
                    len(e.args) == 1:
                old = self.name(f.value.id)
                if self.listed(old):
                    self.set_name(f.value.id, self.grown(
                        old, (self.expr(e.args[0]),)))
                    return NONE
            if f.attr == 'extend' and isinstance(f.value, ast.Name) and \
                    len(e.args) == 1:
                old = self.name(f.value.id)
                if self.listed(old):
                    self.set_name(f.value.id, self.grown(
                        old, self.members(self.expr(e.args[0]))))
                    return NONE
            if f.attr == 'write' and len(e.args) == 1 and not e.keywords:
                return self.event('write', self.expr(e.args[0]), e)
            if self.signature is not None and f.attr == 'element' and \
                    self.expr(f.value) == SELF:
                return self.event('element', self.bound(e), e)
        return super().e_Call(e)

    def assigned(self, stmts):
        """Lists that grow in a loop count as assigned."""
        out = super().assigned(stmts)
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and \
                        isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ('append', 'extend') and \
                        isinstance(n.func.value, ast.Name) and \
                        n.func.value.id not in out:
                    out.append(n.func.value.id)
        return out

    def bound(self, e):
        """Arguments of a call of the element method, by parameter."""
        a = self.signature.args
        names = [x.arg for x in a.args][1:]
        if any(isinstance(x, ast.Starred) for x in e.args) or \
                len(e.args) > len(names):
            raise Unknown('arguments')
        out = dict(zip(names, [self.expr(x) for x in e.args]))
        for k in e.keywords:
            v = self.expr(k.value)
            if k.arg is None:
                if '**' in out:
                    raise Unknown('arguments')
                out['**'] = v
            elif k.arg in out:
                raise Broken('gives %s twice' % k.arg)
            else:
                out[k.arg] = v
        n = len(names) - len(a.defaults)
        for i, x in enumerate(names):
            if x not in out:
                if i < n:
                    raise Broken('lacks %s' % x)
                out[x] = self.expr(a.defaults[i - n])
        return out


def cases(g, fields=(), limit=6):
    """(assignment, events) for every way the conditions can come out."""
    atoms = []
    for kind, x, guards, loops, node in g.events:
        for v in x.values() if isinstance(x, dict) else (x,):
            gvn.gate_atoms(v, atoms)
    # minima stay as they are, and so do choices made inside loops
    atoms = [a for a in atoms if a[0] != 'lt' and not any(
        t[0] in ('phi', 'el', 'pos') for t in terms(a))]
    for kind, x, guards, loops, node in g.events:
        if loops:
            raise NotUnderstood('loop')
        for c in guards:
            gvn.atoms_of(c, atoms)
    for r in g.raises:
        for c in r[0]:
            gvn.atoms_of(c, atoms)
    if len(atoms) > limit:
        raise NotUnderstood('conditions')
    for bs in itertools.product((True, False), repeat=len(atoms)):
        asg = dict(zip(atoms, bs))
        if not consistent(asg):
            continue
        out = []
        for kind, x, guards, loops, node in g.events:
            if all(gvn.value(c, asg) for c in guards):
                x = {k: settle(v, asg) for k, v in x.items()} \
                    if isinstance(x, dict) else settle(x, asg)
                out.append((kind, x, node))
        yield asg, out


# ---------------------------------------------------------------- numbers
def coordinate(t):
    """The number that a text stands for, in normal form."""
    strips = []
    while True:
        if t[0] == 'str' and len(t) == 2:
            t = t[1]
        elif t[0] == 'mcall' and t[1] in ('rstrip', 'strip', 'lstrip') and \
                len(t) == 4 and t[3][0] == 'c':
            strips.append((t[1], t[3][1]))
            t = t[2]
        else:
            break
    if t[0] == 'call' and t[1] in ('str', 'repr') and len(t) == 3:
        if strips:
            raise NotUnderstood('text')
        x = t[2]
        if x[0] == 'call' and x[1] == 'round' and len(x) == 4 and \
                x[3][0] == 'c':
            if type(x[3][1]) is not int or x[3][1] < 4:
                raise Broken('rounds %s too much' % show(x[2]))
            return number(x[2])
        if x[0] == 'call' and x[1] in ('int', 'round') and len(x) == 3:
            raise Broken('rounds %s to an integer' % show(x[2]))
        return number(x)
    if t[0] != 'fmt':
        raise NotUnderstood(show(t))
    m = re.match(r'^(?:\.(\d+))?([a-zA-Z])$', t[1])
    if not m:
        raise NotUnderstood(t[1])
    digits = int(m.group(1)) if m.group(1) else 6
    if m.group(2) in 'di':
        raise Broken('rounds %s to an integer' % show(t[2]))
    if m.group(2) in 'gG' and digits <= 6 or \
            m.group(2) in 'fF' and digits < 4:
        raise Broken('rounds %s too much' % show(t[2]))
    if m.group(2) not in 'fF':
        raise NotUnderstood(t[1])
    at = 'fraction'                 # of a number such as 100.0000
    for how, chars in reversed(strips):
        if set(chars) - set('0. ') or how != 'rstrip' and '0' in chars:
            raise Broken('strips digits of %s' % show(t[2]))
        if at == 'fraction' and '0' in chars:
            at = 'point'
        if at == 'point' and '.' in chars:
            at = 'integer'
            if '0' in chars:
                raise Broken('strips zeros of whole numbers')
        elif at == 'integer' and '0' in chars:
            raise Broken('strips zeros of whole numbers')
    return number(t[2])


def number(t):
    """Normal form of a coordinate: parts of parameters, minima, distances."""
    if t[0] == 'p':
        return t
    if t[0] == 'el':
        return t
    if t[0] == 'fld' and t[2] in ('real', 'imag'):
        b = t[1]
        if b[0] in ('-', '+') and len(b) == 3:
            return number((b[0], ('fld', b[1], t[2]), ('fld', b[2], t[2])))
        if b[0] in ('p', 'el'):
            return t
    if t[0] == 'call' and t[1] in ('min', 'max'):
        return ('call', t[1]) + tuple(sorted(map(number, t[2:]),
                                             key=gvn.key_of))
    if t[0] == 'call' and t[1] == 'abs' and len(t) == 3:
        x = number(t[2])
        if x[0] == '-':
            x = ('-',) + tuple(sorted(x[1:], key=gvn.key_of))
        return ('call', 'abs', x)
    if t[0] in ('-', '+') and len(t) == 3:
        a, b = number(t[1]), number(t[2])
        if t[0] == '-' and a[:2] == ('call', 'max') and \
                b[:2] == ('call', 'min') and a[2:] == b[2:] and len(a) == 4:
            return number(('call', 'abs', ('-',) + a[2:]))
        return (t[0], a, b)
    if t[0] == 'ite':
        # min and max written out
        c, a, b = t[1], number(t[2]), number(t[3])
        if c[0] == 'lt':
            x, y = number(c[1]), number(c[2])
            if {x, y} == {a, b}:
                return number(('call', 'min' if a == x else 'max', a, b))
    if t[0] in ('*', '/', '//') and len(t) == 3:
        # half or twice of what is given
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if b[0] == 'c' and type(b[1]) in (int, float) and \
                    b[1] not in (0, 1) and (b is t[2] or t[0] == '*'):
                x = number(a)
                if x[0] in ('p', 'el', 'fld'):
                    return (t[0], x, b)
    raise NotUnderstood(show(t))


def real(p):
    return ('fld', p, 'real')


def imag(p):
    return ('fld', p, 'imag')


def least(a, b):
    return number(('call', 'min', a, b))


def apart(a, b):
    return number(('call', 'abs', ('-', a, b)))


# --------------------------------------------------------------- elements
def markup(t):
    """(text with place holders, the values they stand for)"""
    out, vals = '', []
    for x in (t[1:] if t[0] == 'str' else (t,)):
        if x[0] == 'c' and type(x[1]) is str:
            out += x[1]
        else:
            out += '\0%d\1' % len(vals)
            vals.append(x)
    return out, vals


ATTRIBUTE = r'\s+([\w:-]+)="([^"<>]*)"'


def parsed(t):
    """(name, {attribute: [words]}) of an element without brackets; words
    are constants and values."""
    s, vals = markup(t)
    m = re.match(r'^([\w:-]+)((?:%s)*)\s*$' % ATTRIBUTE, s)
    if not m:
        if re.match(r'^\0', s) or '\0' in re.sub(r'"[^"]*"', '', s):
            if s.count('"') % 2 == 0:
                raise NotUnderstood('element')
        raise Broken('writes the malformed element %s' %
                     re.sub('[\0\1]', '', s)[:30])
    attrs = {}
    for k, v in re.findall(ATTRIBUTE, m.group(2)):
        if k in attrs:
            raise Broken('gives the attribute %s twice' % k)
        words = []
        for w in re.findall('\0\\d+\1|[A-Za-z]|[^\\s,\0A-Za-z]+', v):
            words.append(vals[int(w[1:-1])] if w[0] == '\0' else w)
        attrs[k] = words
        if re.search('\1[^\\s,\0A-Za-z]|\1\0|[^\\s,\1A-Za-z]\0', v):
            raise Broken('joins the numbers of %s' % k)
    return m.group(1), attrs


def compare(k, got, want, params):
    """One attribute: its words against the expected ones."""
    if len(got) != len(want):
        if all(isinstance(w, str) for w in got) or len(got) > len(want):
            raise Broken('gives %s %d numbers instead of %d' % (
                k, len(got), len(want)))
        raise NotUnderstood(k)
    for a, b in zip(got, want):
        if isinstance(b, str):
            if isinstance(a, str):
                if a != b:
                    raise Broken('gives %s %s instead of %s' % (k, a, b))
                continue
            raise Broken('gives %s %s' % (k, show(coordinate(bare(a)))))
        if isinstance(a, str):
            raise Broken('gives %s the constant %s' % (k, a))
        if callable(b):
            b(k, a)
            continue
        x = coordinate(bare(a))
        if x not in (b if isinstance(b, list) else [b]):
            raise Broken('gives %s %s' % (k, show(x)))


def point_list(points):
    def check(k, t):
        t = bare(t)
        if t[0] == 'str' and len(t) == 2:
            t = t[1]
        if t[:2] != ('mcall', 'join') or t[3][0] != 'comp' or \
                t[2][0] != 'c' or len(t[3][3]) != 1:
            raise NotUnderstood(k)
        (it, cond), = t[3][3]
        if it != ('keys', points):
            if it[1][:1] in (('slice',), ('call',), ('new',)):
                raise Broken('draws %s' % show(it[1]))
            raise NotUnderstood(k)
        if cond != TRUE:
            raise Broken('leaves points out')
        if not re.match(r'^[\s,]+$', t[2][1]):
            raise Broken('does not separate the points')
        v = t[3][2][0]
        s, vals = markup(v)
        if not re.match('^\0\\d+\1[\\s,]+\0\\d+\1$', s):
            if '\1\0' in s:
                raise Broken('does not separate the coordinates')
            raise NotUnderstood(k)
        p = [x for x in terms(vals[0]) if x[0] == 'el']
        if not p:
            raise NotUnderstood(k)
        for x, want in zip(vals, (real(p[0]), imag(p[0]))):
            x = coordinate(x)
            if x != want:
                raise Broken('gives the points %s' % show(x))
    return check


def flag(name, asg):
    v = asg.get(('truth', ('p', name)))
    return lambda k, t: None if v is None else NotImplemented


def expected(method, ps, asg):
    """(element, attributes, delta) of the events of a drawing method."""
    p = [('p', x) for x in ps]
    if method == 'circle':
        c, r = p[:2]
        return [('circle', {'cx': [real(c)], 'cy': [imag(c)],
                            'r': [[r, ('call', 'abs', r)]]}, 0)]
    if method == 'rectangle':
        a, b = p[:2]
        return [('rect', {'x': [least(real(a), real(b))],
                          'y': [least(imag(a), imag(b))],
                          'width': [apart(real(a), real(b))],
                          'height': [apart(imag(a), imag(b))]}, 0)]
    if method == 'polygon':
        return [('polygon', {'points': [point_list(p[0])]}, 0)]
    if method == 'segment':
        a, b = p[:2]
        return [('line', {'x1': [real(a)], 'y1': [imag(a)],
                          'x2': [real(b)], 'y2': [imag(b)]}, 0)]
    if method == 'arc':
        a, b, r, large = p[:4]
        v = asg.get(('truth', large))
        r = [r, ('call', 'abs', r)]

        def either(k, t):
            t = bare(t)
            if t == ('call', 'str', ('call', 'int', ('truth', large))) or \
                    t == ('fmt', 'd', ('truth', large)):
                return
            raise NotUnderstood(k)
        return [('path', {'d': ['M', real(a), imag(a), 'A', r, r, '0',
                                either if v is None else '01'[v], '0',
                                real(b), imag(b)]}, 0)]
    if method == 'text':
        return [('text', {'x': [real(p[1])], 'y': [imag(p[1])]}, 1),
                p[0], ('text', {}, -1)]
    if method == 'group':
        return [('g', {}, 1)]
    if method == 'ungroup':
        return [('g', {}, -1)]
    if method == '__init__':
        w, h = real(p[0]), imag(p[0])
        return [('svg', {'width': [w], 'height': [h],
                         'viewBox': ['0', '0', w, h]}, 1)]
    if method == 'close':
        return [('svg', {}, -1)]


STYLED = {'circle', 'rectangle', 'polygon', 'segment', 'arc', 'text',
          'group'}
DRAWING = ['circle', 'rectangle', 'polygon', 'segment', 'arc', 'text',
           'group', 'ungroup', '__init__', 'close']


def drawing(src, module, cname, method, note):
    element, _ = src.need(module, cname + '.element')
    fn, c = src.need(module, '%s.%s' % (cname, method))
    g = Texts(src.resolver(module, cname), element)
    g.run(fn, cls=c)
    if g.opaque:
        raise NotUnderstood('statement')
    ps = [a.arg for a in fn.args.args][1:]
    kwarg = fn.args.kwarg and fn.args.kwarg.arg
    e, delta = [a.arg for a in element.args.args][1:3]
    spacing = spacing_of(element)
    for asg, events in cases(g):
        note('cases compared')
        want = expected(method, ps, asg)
        if method == '__init__':
            # the declaration in front
            while events and events[0][0] == 'write':
                kind, t, node = events.pop(0)
                if t[0] != 'c':
                    raise NotUnderstood('declaration')
                if not re.match(r'^(\s*<\?[^<>]*\?>|\s*<![^<>]*>)*\s*$',
                                t[1]):
                    raise Broken('writes a malformed declaration')
        if len(events) != len(want):
            if any(e.op == 'call' and not pure_call(e.val) for e in g.log):
                raise NotUnderstood('calls')
            raise Broken('writes %d parts instead of %d' % (
                len(events), len(want)))
        for n, ((kind, x, node), w) in enumerate(zip(events, want)):
            note('elements compared')
            if w[0] == 'p':
                if kind != 'write':
                    raise Broken('does not write %s there' % w[1])
                x = bare(x)
                if x in (w, ('call', 'str', w), ('str', w)):
                    continue
                if x[0] in ('p', 'c') or any(
                        q == w for q in (x[1:] if x[0] == 'str' else ())):
                    raise Broken('writes %s' % show(x))
                raise NotUnderstood('label')
            if kind != 'element':
                if kind == 'write' and bare(x) == ('p', ps[0]):
                    raise Broken('writes %s outside its element' % ps[0])
                raise NotUnderstood('written directly')
            name, attrs, d = w
            got, have = parsed(bare(x[e]))
            if x[delta][0] != 'c':
                raise NotUnderstood('delta')
            if x[delta][1] != d:
                raise Broken({1: 'does not open', 0: 'does not complete',
                              -1: 'does not close'}[d] + ' <%s>' % name)
            if got != name:
                raise Broken('writes <%s> instead of <%s>' % (got, name))
            for k, v in attrs.items():
                if k not in have:
                    raise Broken('writes no %s' % k)
                compare(k, have[k], v, ps)
            if d < 0 and have:
                raise Broken('gives attributes to </%s>' % name)
            if method in STYLED and n == 0:
                if 'style' in ps and x.get('style') != ('p', 'style'):
                    if x.get('style') in (None, NONE) or \
                            x['style'][0] in ('new', 'lst'):
                        raise Broken('drops the style')
                if kwarg and '**' not in x and 'style' in x and \
                        x['style'] == ('p', 'style'):
                    raise Broken('drops the keyword styles')
            if method == 'text' and x.get(spacing) == ('c', False):
                raise Broken('surrounds the label with spaces')


def pure_call(t):
    return t is not None and t[0] == 'call' and \
        str(t[1]).endswith(('Error', 'Exception'))


# the element method itself
def pieces(t):
    """A text as a list of parts, loops taken apart."""
    if t[0] == 'str':
        for x in t[1:]:
            yield from pieces(x)
    elif t[0] == 'lst':
        for x in t[1:]:
            yield from pieces(x[1] if x[0] == 'all' else x)
    elif t[0] == 'exit':
        yield from pieces(t[1])
        if len(t) != 4:
            raise NotUnderstood('loop')
        yield ('loop', t[3])
    else:
        yield t


def spacing_of(element):
    names = [a.arg for a in element.args.args][3:]
    if 'style' not in names or len(names) != 2:
        raise NotUnderstood('parameters')
    return [x for x in names if x != 'style'][0]


def tag(src, module, cname, note):
    element, cls = src.need(module, cname + '.element')
    names = [a.arg for a in element.args.args][1:]
    e, delta = names[:2]
    spaced = spacing_of(element)
    precedence(element)
    for d in (-1, 0, 1):
        for u in (False, True):
            g = Texts(src.resolver(module, cname))
            g.run(element, {'self': SELF, e: ('p', e), delta: ('c', d),
                            spaced: ('c', u), 'style': ('p', 'style'),
                            element.args.kwarg.arg:
                            ('p', element.args.kwarg.arg)}, cls=cls)
            if g.opaque:
                raise NotUnderstood('statement')
            level(g, d)
            for asg, events in cases(g):
                note('cases compared')
                if any(k != 'write' for k, x, n in events):
                    raise NotUnderstood('event')
                parts = []
                for k, x, n in events:
                    parts += list(pieces(settle(x, asg)))
                styled = [v for a, v in asg.items() if a[0] == 'truth']
                seen = [mention(a, ('p', x)) for x in (
                    'style', element.args.kwarg.arg)
                    for a in [tuple(asg)]]
                if styled and any(seen) and not all(seen):
                    raise Broken('looks at some of the styles only')
                one_tag(parts, d, u, e, styled)


def precedence(element):
    """Keyword styles win over the entries of the style dictionary."""
    more = element.args.kwarg.arg
    made = {'style': ['style'], more: [more]}

    def layers(x):
        """What a dictionary is made of, the last one wins."""
        if isinstance(x, ast.Name):
            return made.get(x.id)
        out = None
        if isinstance(x, ast.Dict) and not any(x.keys):
            out = [layers(v) for v in x.values]
        elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
            out = [layers(x.left), layers(x.right)]
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'dict' and len(x.args) < 2:
            out = [layers(v) for v in x.args] + [
                layers(k.value) if k.arg is None else None
                for k in x.keywords]
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                and x.func.attr == 'copy' and not x.args:
            out = [layers(x.func.value)]
        if out is None or None in out:
            return None
        return [y for o in out for y in o]
    for s in element.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Name):
            made[s.targets[0].id] = layers(s.value)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'update' and \
                isinstance(s.value.func.value, ast.Name) and \
                len(s.value.args) == 1:
            n = s.value.func.value.id
            a, b = made.get(n), layers(s.value.args[0])
            made[n] = a + b if a and b else None
        else:
            continue
        if any(o and o[-1] == 'style' and more in o for o in made.values()):
            raise Broken('lets the style dictionary override keywords')


def level(g, d):
    """The nesting level follows the tags."""
    old = ('fld', SELF, 'nesting')
    new = old
    for e in g.log:
        if e.op == 'field' and e.base == SELF and e.key == ('f', 'nesting'):
            if e.guards or e.loops:
                raise NotUnderstood('level')
            new = e.val
    want = gvn.binary('+', old, ('c', d))
    if new != want:
        if new == old or new[0] in ('+', '-', 'c'):
            raise Broken('counts the nesting wrongly')
        raise NotUnderstood('level')


def one_tag(parts, d, unspaced, e, styled):
    s = ''
    for x in parts:
        x = bare(x)
        if x[0] == 'c' and type(x[1]) is str:
            s += x[1]
        elif x[0] == '*' and any(y[0] == 'c' and type(y[1]) is str and
                                 not y[1].strip(' \t') for y in x[1:]):
            s += ' '
        elif x == ('fld', SELF, 'prefix'):
            s += '\1'
        elif x == ('p', e):
            s += '\2'
        elif x[0] == 'loop':
            if not any(';' in y for y in inner(x[1])):
                raise Broken('does not separate styles with ;')
            s += '\3'
        elif x[:2] == ('mcall', 'join') and x[3][0] == 'comp':
            if not re.match(r'^\s*;\s*$', x[2][1]):
                raise Broken('does not separate styles with ;')
            v = x[3][2][0]
            inner(v if v[0] == 'str' else ('str', v))
            s += '\3'
        else:
            raise NotUnderstood(show(x))
    what = {1: 'opening', 0: 'complete', -1: 'closing'}[d]
    m = re.match('^\\s*<(/?)(\1?)(\2?)( style="([^"<>]*)")?\\s*(/?)>\\s*$',
                 s)
    if not m:
        raise Broken('writes malformed %s tags' % what)
    if (m.group(1) == '/') != (d < 0) or (m.group(6) == '/') != (d == 0):
        raise Broken('writes no %s tags' % what)
    if not m.group(2) or not m.group(3):
        raise Broken('leaves out the name or prefix')
    if m.group(5) is not None and '\3' not in m.group(5) or \
            m.group(5) is None and '\3' in s:
        raise Broken('writes no styles')
    if any(styled) and m.group(5) is None and d >= 0:
        raise Broken('writes no styles')
    if unspaced and (d > 0 and s[-1] != '>' or d < 0 and s[0] != '<'):
        raise Broken('puts spaces around unspaced content')


def inner(t):
    """One round of the loop over the styles."""
    rounds = [s for s in spelled(t)]
    for s in rounds:
        if not re.match('^[;\\s]*\1\\s*:\\s*\2[;\\s]*$', s):
            raise Broken('writes malformed styles')
    return rounds


def spelled(t):
    """The texts that one round can add."""
    if t[0] == 'ite':
        yield from spelled(t[2])
        yield from spelled(t[3])
        return
    outs = ['']
    for x in pieces(t):
        x = bare(x)
        if x[0] == 'phi':
            more = [''] if x[2] != ('c', '') else ['', '; ']
        elif x[0] == 'ite':
            more = list(spelled(x))
        elif x[0] == 'c' and type(x[1]) is str:
            more = [x[1]]
        elif x[0] == 'el':
            more = ['\1']
        elif x[0] == 'idx' and x[2][0] == 'el':
            more = ['\2']
        elif x[0] == 'call' and x[1] == 'str' and len(x) == 3 and \
                x[2][0] == 'idx':
            more = ['\2']
        else:
            raise NotUnderstood(show(x))
        outs = [a + b for a in outs for b in more]
    yield from outs


def problems(src, module, cname, note=lambda *a: None):
    for m in ['element'] + DRAWING:
        fn, c = src.need(module, '%s.%s' % (cname, m))
        try:
            if m == 'element':
                tag(src, module, cname, note)
            else:
                drawing(src, module, cname, m, note)
            note('methods decided')
        except Broken as b:
            yield '%s.%s' % (cname, m), fn.lineno, str(b)
        except (Unknown, NotUnderstood):
            note('methods not understood')


def example(src, module, name):
    return problems(src, module, name)


def check_c19(tier):
    rep = Report()
    rule_examples(rep, example, 'pictures', ['Good', 'Plain'],
                  ['Swapped', 'Open', 'Zeros', 'Corner'])
    src = lang.Source()
    for where, line, what in problems(src, 'svg', 'SVG', rep.count):
        rep.add('C19', 'svg.' + where, what, what, line)
    rep.need('cases compared', 10)
    rep.explanation = (
        'The texts written by each drawing method are brought into a normal '
        'form of constants and values, for every outcome of its conditions; '
        'the element is parsed and each attribute must hold the expected '
        'part of the expected argument, formatted without losing digits.  '
        'The element method is specialised to its three kinds of tags and '
        'two kinds of spacing, and the tag it writes is matched with the '
        'grammar of tags.')
    return rep
