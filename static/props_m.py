"""C26 and C27: questions leave a structure as it is, and integer algorithms
stay within the integers."""
import ast

from props_a import EXAMPLES, rule_check
from props_l import Names
from report import Report
from scopes import AnalysisError, Module, load_modules, parse

# ------------------------------------------------------------------- C26

_NFA = ('transition', 'isfinal', 'states', '__len__', '__call__', 'pprint',
        'asDFA', 'asNFA', 'RegExp', 'minimize', 'reverse', 'renumber',
        'complement', 'union', 'intersection', 'symmetricDifference',
        'language', '__eq__', '__ne__')
_SEQ = ('__iter__', '__getitem__', '__len__', '__repr__', 'key',
        'predecessor', 'successor')
_MEDIUM = ('states', 'tokens', 'reverse', 'action', '__iter__', '__len__',
           '__getitem__', '__call__')
C26_QUERIES = {
    '_not.SymbolicNegation': ('negate', '__repr__', '__eq__', '__hash__'),
    'acyclic_reachability.Reachability': ('reachable',),
    'automata.LookupNFA': _NFA,
    'automata.RegExp': _NFA,
    'automata._ComplementDFA': _NFA,
    'automata._DFAfromNFA': _NFA,
    'automata._MinimumDFA': _NFA,
    'automata._NFAfromDFA': _NFA,
    'automata._ProductDFA': _NFA,
    'automata.RegularLanguage': (
        '__contains__', '__eq__', '__ne__', '__le__', '__ge__', '__lt__',
        '__gt__', '__invert__', '__and__', '__or__', '__xor__', '__bool__'),
    'biconnectivity.BiconnectedComponents': ('__iter__',),
    'bucketqueue.BucketQueue': ('__getitem__', '__contains__', '__len__'),
    'frequencyestimator.FrequencyEstimator': ('__iter__', '__getitem__'),
    'integer_heap.BitVectorHeap': ('__bool__', '__nonzero__', 'min'),
    'integer_heap.FlatHeap': ('__bool__', '__nonzero__', 'min'),
    'integer_heap.LinearHeap': ('__bool__', '__nonzero__', 'min'),
    'lca.LCA': ('__call__',),
    'lca.LogarithmicRangeMin': ('__getitem__', '__len__'),
    'lca.PrecomputedRangeMin': ('__getitem__', '__len__'),
    'lca.RangeMin': ('__getitem__', '__len__'),
    'lca.RestrictedRangeMin': ('__getitem__', '__len__'),
    'medium.BitvectorMedium': _MEDIUM,
    'medium.ExplicitMedium': _MEDIUM,
    'medium.LabeledGraphMedium': _MEDIUM,
    'ordered_sequence.SimpleOrderedSequence': _SEQ + ('cmp',),
    'ordered_sequence.LogarithmicOrderedSequence': _SEQ + ('cmp',),
    'partition_refinement.PartitionRefinement': (
        '__getitem__', '__iter__', '__len__'),
    'repetitivity.NonrepetitiveGraph': (
        '__getitem__', '__contains__', '__iter__', 'cyclic', 'reachable',
        'shortest'),
    'sequence.Sequence': _SEQ,
    'sorted_set.SortedSet': ('__len__', '__iter__'),
    'strong_connectivity.StronglyConnectedComponents': (
        '__iter__', '__len__'),
    'sudoku.Sudoku': ('__iter__', 'choices', 'complete'),
    'union_find.UnionFind': ('__iter__',),
}
# questions that also tidy up: only the fields named here must stay
C26_LAZY = {
    # keeps the sorted list and forgets the pending changes
    ('sorted_set.SortedSet', '__iter__'): ('_set',),
}


def private_to(names, entry, meth, field):
    """A memo: a field that only this method and the constructor mention,
    the method not being a generator."""
    m, c = entry.split('.')
    if (m, c) not in names.top:
        return False
    users = set()
    for mm, d in classes(names, m, names.top[m, c]):
        for s in d.body:
            if isinstance(s, ast.FunctionDef) and any(
                    isinstance(n, ast.Attribute) and n.attr == field
                    for n in ast.walk(s)):
                users.add(s.name)
                if s.name == '__init__' and not starts_empty(s, field):
                    return False
                if s.name == meth and any(
                        isinstance(n, (ast.Yield, ast.YieldFrom))
                        for n in ast.walk(s)):
                    return False
    return users <= {meth, '__init__'}


def starts_empty(fn, field):
    """The constructor gives the field nothing that it was told."""
    mentions = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute)
                and n.attr == field]
    plain = [t for n in ast.walk(fn) if isinstance(n, ast.Assign)
             and not any(isinstance(x, (ast.Name, ast.Attribute))
                         and getattr(x, 'id', None) not in (
                             'set', 'dict', 'list')
                         for x in ast.walk(n.value))
             for t in n.targets]
    return all(m in plain for m in mentions)


def classes(names, m, c, depth=0):
    yield m, c
    for b in c.bases:
        if isinstance(b, ast.Name) and depth < 6:
            got = names.look(m, b.id)
            if got and isinstance(got[1], ast.ClassDef):
                for x in classes(names, got[0], got[1], depth + 1):
                    yield x


def c26_rule(names):
    def c26(x, entry):
        if not x.get('extra'):
            return
        for meth, path, how, where, con, line in x['extra']['changes']:
            if entry.startswith('ex.'):
                if meth.startswith('add'):
                    continue
            elif meth not in C26_QUERIES.get(entry, ()):
                continue
            field = path.split('.')[0] or how.partition(':')[2]
            only = C26_LAZY.get((entry, meth))
            if only and field not in only:
                continue
            if private_to(names, entry, meth, field):
                continue
            yield (('structure changed by a question', where, con,
                    '%s.%s changes %s (%s)' % (
                        entry, meth, 'self' + ('.' + field if field else ''),
                        how)), {'line': line})
    return c26


def check_c26(tier):
    rep = Report()
    names = Names(load_modules())
    names.top.update(Names(load_modules(EXAMPLES)).top)
    rule = c26_rule(names)
    r = rule_check(rep, rule, 'c26')
    n = 0
    writes = set()
    for x in r['results']:
        if not x.get('extra'):
            continue
        q = C26_QUERIES.get(x['entry'], ())
        n += len(set(q) & set(x['extra']['methods']))
        writes |= {(c[3], c[4]) for c in x['extra']['changes']}
    rep.count('questions analysed', n)
    rep.count('places that change a structure', len(writes))
    rep.need('questions analysed', 100)
    rep.need('places that change a structure', 50)
    rep.explanation = (
        'Every object reachable from the structure when a method is called '
        'is known to the abstract interpreter; a write to one of them, in '
        'the method, its helpers or the generator it returns, is attributed '
        'to that method.  Methods that ask may have none.')
    rep.samples = ['%s: %s' % k for k in sorted(writes)[:10]]
    rep.assumptions = ['fields that only one method and the constructor '
                       'mention are memos']
    return rep


# ------------------------------------------------------------------- C27

# modules that compute with real numbers
C27_REAL = {'circle_pack', 'frequencyestimator', 'svg'}
# functions that draw
C27_REAL_FUNCTIONS = {('sudoku', 'svg_format'): 'coordinates of a drawing'}
# modules that compare with a real threshold: the flow of real numbers to
# what is stored is followed instead
C27_FLOW = {'ordered_sequence'}
EXACT_MATH = {'gcd', 'lcm', 'isqrt', 'comb', 'perm', 'factorial', 'prod',
              'inf', 'floor', 'ceil', 'trunc'}
REAL_MODULES = {'math', 'cmath', 'statistics'}
REAL_OPERATOR = {'truediv', 'itruediv', '__truediv__', '__rtruediv__'}


class Reals(ast.NodeVisitor):
    """Constructs that make a floating point number out of integers."""

    def __init__(self, tree):
        self.found = []         # (function, node, message)
        self.ops = 0
        self.fn = ''
        self.functions = set()
        self.mods = {}          # local name -> module
        self.names = {}         # local name -> member of math
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in REAL_MODULES | {'operator'}:
                        self.mods[a.asname or a.name] = a.name
            elif isinstance(n, ast.ImportFrom) and not n.level and \
                    n.module in REAL_MODULES | {'operator'}:
                for a in n.names:
                    self.names[a.asname or a.name] = (n.module, a.name)
        self.visit(tree)

    def real(self, node, text):
        self.found.append((self.fn, node, text))

    def visit_FunctionDef(self, n):
        saved = self.fn
        self.fn = (saved + '.' if saved else '') + n.name
        self.functions.add(self.fn)
        self.generic_visit(n)
        self.fn = saved

    def visit_ClassDef(self, n):
        saved = self.fn
        self.fn = (saved + '.' if saved else '') + n.name
        self.generic_visit(n)
        self.fn = saved

    def op(self, n, op, right):
        self.ops += 1
        if isinstance(op, ast.Div):
            self.real(n, 'true division')
        elif isinstance(op, ast.Pow) and isinstance(right, ast.UnaryOp) and \
                isinstance(right.op, ast.USub):
            self.real(n, 'negative power')

    def visit_BinOp(self, n):
        self.op(n, n.op, n.right)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.op(n, n.op, n.value)
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, (float, complex)) and \
                n.value not in (float('inf'), -float('inf')):
            self.real(n, 'real constant')

    def member(self, node):
        if isinstance(node, ast.Name) and node.id in self.names:
            return self.names[node.id]
        if isinstance(node, ast.Attribute) and isinstance(
                node.value, ast.Name) and node.value.id in self.mods:
            return self.mods[node.value.id], node.attr
        return None

    def visit_Name(self, n):
        m = self.member(n)
        if isinstance(n.ctx, ast.Load) and m:
            self.use(n, m)

    def visit_Attribute(self, n):
        m = self.member(n)
        if m:
            self.use(n, m)
        elif n.attr in REAL_OPERATOR:
            self.real(n, 'true division')
        self.generic_visit(n)

    def use(self, n, m):
        self.ops += 1
        if m[0] == 'operator':
            if m[1] in REAL_OPERATOR:
                self.real(n, 'true division')
        elif m[0] != 'math' or m[1] not in EXACT_MATH:
            self.real(n, '%s.%s' % m)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ('float',
                                                          'complex'):
            a = n.args[0] if n.args else None
            if not (isinstance(a, ast.Constant) and isinstance(a.value, str)
                    and 'inf' in a.value.lower()):
                self.real(n, n.func.id + '()')
        self.generic_visit(n)


def real_flow(functions):
    """Real numbers that reach a table, other than through a comparison:
    (function, node, message)."""
    giving = set()              # functions that return real numbers

    def analyse(fn):
        real = set()

        def has(e):
            if isinstance(e, ast.Constant):
                return isinstance(e.value, (float, complex))
            if isinstance(e, ast.Name):
                return e.id in real
            if isinstance(e, (ast.Compare, ast.Lambda)):
                return False
            if isinstance(e, ast.IfExp):
                return has(e.body) or has(e.orelse)
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
                return True
            if isinstance(e, ast.Subscript):
                return has(e.value)
            if isinstance(e, ast.Call) and getattr(
                    e.func, 'id', getattr(e.func, 'attr', '')) in giving:
                return True
            return any(has(c) for c in ast.iter_child_nodes(e)
                       if isinstance(c, ast.expr))
        for _ in range(6):
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        pairs = [(t, n.value)]
                        if isinstance(t, ast.Tuple):
                            v = n.value
                            pairs = list(zip(t.elts, v.elts)) if isinstance(
                                v, ast.Tuple) and len(v.elts) == len(
                                t.elts) else [(x, v) for x in t.elts]
                        for x, v in pairs:
                            if isinstance(x, ast.Name) and has(v):
                                real.add(x.id)
                elif isinstance(n, ast.AugAssign) and isinstance(
                        n.target, ast.Name) and (
                        has(n.value) or isinstance(n.op, ast.Div)):
                    real.add(n.target.id)
        return has

    for _ in range(3):
        for fn in functions:
            has = analyse(fn)
            if any(isinstance(n, ast.Return) and n.value is not None
                   and has(n.value) for n in ast.walk(fn)):
                giving.add(fn.name)
    for fn in functions:
        has = analyse(fn)
        for n in ast.walk(fn):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                bad = has(n.value) or isinstance(n, ast.AugAssign) and \
                    isinstance(n.op, ast.Div)
                if bad and any(isinstance(t, ast.Subscript) for t in ts):
                    yield fn.name, n, 'a real number is stored'


def used_only_by(tree, module):
    """The functions that draw, and those that only they use."""
    tops = [s for c in [tree] + [n for n in ast.walk(tree)
                                 if isinstance(n, ast.ClassDef)]
            for s in c.body if isinstance(s, ast.FunctionDef)]
    users = {}
    for s in tops:
        for n in ast.walk(s):
            name = getattr(n, 'id', getattr(n, 'attr', None))
            if name:
                users.setdefault(name, set()).add(s.name)
    out = {f for m, f in C27_REAL_FUNCTIONS if m == module}
    while out:
        more = {s.name for s in tops if s.name in users
                and users[s.name] - {s.name} and
                users[s.name] - {s.name} <= out} - out
        if not more:
            break
        out |= more
    return out


EXACT_EXAMPLES = '''
import math
from math import log

def good_floor(n):
    return (n * n - 1) // 2 + 2 ** n

def good_isqrt(n):
    return math.isqrt(n)

def good_inf(L):
    best = float('inf')
    for x in L:
        best = min(best, x)
    return best

def bad_div(n):
    return int(n / 2)

def bad_aug(n):
    n /= 2
    return n

def bad_sqrt(n):
    return int(math.sqrt(n))

def bad_root(n):
    return int(n ** 0.5)

def bad_log(n):
    return int(log(n, 2))

def bad_float(n):
    return float(n) // 2

def bad_inverse(n):
    return n * 2 ** -1
'''
FLOW_EXAMPLES = '''
def good(tag, n):
    limit = 1.0
    while n > limit:
        limit *= 1.5
        n -= 1
    tag[n] = n // 2

def bad(tag, n):
    limit = 1.5
    step = n * limit
    tag[n] = int(step)

def bad_half(tag, n):
    tag[n] = (n + 1) / 2
'''


def module_reals(tree, module):
    """-> visitor, findings of one module"""
    v = Reals(tree)
    out = []
    if module in C27_FLOW:
        return v, list(real_flow([n for n in ast.walk(tree)
                                  if isinstance(n, ast.FunctionDef)]))
    drawing = used_only_by(tree, module)
    for fn, node, text in v.found:
        if not drawing & set(fn.split('.')):
            out.append((fn, node, text))
    return v, out


def check_c27(tier):
    rep = Report()
    n = 0
    tree = parse(EXACT_EXAMPLES, '<examples>')
    v, out = module_reals(tree, 'ex')
    hit = {fn for fn, _, _ in out}
    for fn in sorted(v.functions):
        n += 1
        if (fn in hit) != fn.startswith('bad'):
            raise AnalysisError('the rule misjudges its example ' + fn)
    for s in parse(FLOW_EXAMPLES, '<examples>').body:
        n += 1
        if bool(list(real_flow([s]))) != s.name.startswith('bad'):
            raise AnalysisError('the rule misjudges its example ' + s.name)
    mods = load_modules()
    for m in C27_REAL:
        if m not in mods:
            raise AnalysisError('module %s has vanished' % m)
    for m, md in sorted(mods.items()):
        if m in C27_REAL:
            continue
        v, out = module_reals(md.tree, m)
        rep.count('modules inspected')
        rep.count('functions inspected', len(v.functions))
        rep.count('arithmetic operations inspected', v.ops)
        for fn, node, text in out:
            rep.add('real number', 'pads/%s.py:%s' % (m, fn),
                    ast.unparse(node), text, line=node.lineno)
    rep.count('rule examples checked', n)
    rep.need('modules inspected', 35)
    rep.need('arithmetic operations inspected', 200)
    rep.explanation = (
        'Every arithmetic operation, constant and use of the math modules '
        'outside the modules that compute with real numbers is inspected '
        'for operations that turn integers into floating point numbers; in '
        'ordered sequences, which compare with a real threshold, the flow '
        'of real numbers to the tags is followed instead.')
    rep.assumptions = ['the operators of caller-supplied numbers are their '
                       'own']
    return rep
