"""Runs the abstract interpreter over every public operation of the package
and returns the observed events as plain data."""
import ast
import multiprocessing
import os
import traceback

import client
from client import *            # noqa
from interp import Dead
from entries import ENTRIES, PARAMS, SKIP, CALLBACKS, ABSTRACT, \
    OPTIONAL  # noqa
from scopes import AnalysisError


def spec_for(module, name):
    """What the client knows about one entry (any
    function of a module as '*')."""
    out = {}
    for (m, n), table in PARAMS.items():
        if m == module and n in ('*', name):
            out.update(table)
    members = {}
    for m, n, kind, mem in ENTRIES + OPTIONAL:
        if (m, n) == (module, name):
            members = mem
    if not members and module == 'ex':
        for o in objs(STATE['A'].base[STATE['A'].module_objs[module]][name]):
            if o.kind == 'class':
                members = {k: () for k in STATE['A'].base[o]
                           if k[0] not in '#@*' and k != '__init__'
                           and k != '__doc__'}
                members = {k: tuple(a.arg for f in objs(
                    STATE['A'].base[o][k]) if f.kind == 'func'
                    for a in f.info.node.args.args) for k in members
                    if any(f.kind == 'func' for f in objs(
                        STATE['A'].base[o][k]))}
    skip = CALLBACKS if (module, name) in SKIP else ()
    return {'params': out, 'members': members, 'skip': skip}


def plain(x):
    if type(x) is Obj:
        return {'kind': x.kind, 'root': x.site if x.kind == 'arg' else '',
                'path': list(x.info) if x.kind == 'arg' else [],
                'label': x.label()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, (list, tuple, set, frozenset)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return repr(x)


STATE = {}
# operations whose analysis may fail to settle before the check as a whole
# gives no answer; they are named in the evidence
UNDECIDED = 5


def one(entry):
    A = STATE['A']
    setup = STATE['setup']
    m, n, kind = entry[:3]
    A.fresh()
    kind = [o.kind for o in objs(A.base[A.module_objs[m]][n])
            if o.kind in ('func', 'class')][0]
    res = {'entry': '%s.%s' % (m, n), 'error': None,
           'variant': entry[3] if len(entry) > 3 else None}

    def go():
        tools = setup(A, entry) if setup else None
        run = run_function if kind == 'func' else run_class
        after = getattr(tools, 'after', None)
        c = None
        try:
            c = run(A, m, n, spec_for(m, n), after)
        except Dead:            # no arguments to call it with
            A.final = False
        if tools is not None and hasattr(tools, 'done'):
            res['extra'] = tools.done(A, c)
    try:
        with_stack(go)
    except AnalysisError as e:
        res['error'] = str(e)
    except BaseException:
        res['error'] = traceback.format_exc(limit=-6)
    res['events'] = [plain(e) for e in A.events.values()]
    for e in res['events']:
        e['entry'] = res['entry']
    res['reached'] = A.reached_keys()
    res['calls'] = sorted(A.calls)
    res['steps'] = A.steps
    res['evidence'] = sorted(set(x.label() for x in A.evidence))
    return res


def check_entries(A):
    """Every frozen public name must still exist with its kind."""
    gone = []
    for m, n, kind, _ in ENTRIES:
        if m not in A.module_objs:
            gone.append('module %s' % m)
            continue
        v = A.base[A.module_objs[m]].get(n)
        if v is None or not any(o.kind in ('func', 'class')
                                for o in objs(v)):
            gone.append('%s.%s' % (m, n))
    if gone:
        raise AnalysisError('public operations have vanished: '
                            + ', '.join(gone))


def run_all(setup=None, only=None, repo=None, procs=None, variants=None):
    A = STATE.get('tree')
    if A is None:
        A = STATE['tree'] = with_stack(load, repo)
        base_events = [plain(e) for e in A.events.values()]
        for e in base_events:
            e['entry'] = '<module>'
        STATE['base_events'] = base_events
    base_events = STATE['base_events']
    check_entries(A)
    entries = [e[:3] for e in ENTRIES if only is None or only(e)]
    for e in OPTIONAL:
        v = A.base[A.module_objs[e[0]]].get(e[1])
        if v and any(o.kind == 'class' for o in objs(v)) \
                and (only is None or only(e)):
            entries.append(e[:3])
    if variants is not None:
        entries = variants
    STATE['A'] = A
    STATE['setup'] = setup
    A.freeze()
    procs = min(len(entries), procs or min(8, os.cpu_count() or 1))
    # long ones first
    heavy = {('automata', 'RegExp'): 0, ('cubic_ham', 'hamiltonian_cycles'): 1}
    order = sorted(entries, key=lambda e: heavy.get(e[:2], 2))
    if procs == 1:
        results = [one(e) for e in order]
    else:
        cx = multiprocessing.get_context('fork')
        with cx.Pool(procs) as pool:
            results = list(pool.imap_unordered(one, order, 1))
    results.sort(key=lambda r: r['entry'])
    bad = [r for r in results if r['error']]
    if len(bad) > UNDECIDED:
        raise AnalysisError('analysis failed for %s: %s' % (
            bad[0]['entry'], bad[0]['error']))
    results = [r for r in results if not r['error']]
    reached = set()
    for r in results:
        reached.update(map(tuple, r['reached']))
    reached.update(A.reached_keys())
    total = 0
    hit = 0
    for name, md in A.modules.items():
        for f in ast.walk(md.tree):
            if isinstance(f, ast.stmt):
                total += 1
                if (name, f.lineno, f.col_offset) in reached:
                    hit += 1
    return {'A': A, 'results': results, 'base_events': base_events,
            'reached': reached, 'statements': total, 'analysed': hit,
            'entries': len(results),
            'undecided': ['%s: %s' % (r['entry'], r['error']) for r in bad]}


def run_examples(repo, setup, prefix='', variant=None):
    """The example package, every public name of it."""
    A = with_stack(load, repo)
    STATE['A'] = A
    STATE['setup'] = setup
    A.freeze()
    out = []
    for m in sorted(A.modules):
        for n, v in A.base[A.module_objs[m]].items():
            for x in objs(v):
                if x.kind in ('func', 'class') and x.info.module.name == m \
                        and not n.startswith('_') \
                        and n.lower().startswith(prefix):
                    out.append(one((m, n, x.kind, variant)))
    bad = [r for r in out if r['error']]
    if bad:
        raise AnalysisError('example %s: %s' % (bad[0]['entry'],
                                                bad[0]['error']))
    return {'results': out}
