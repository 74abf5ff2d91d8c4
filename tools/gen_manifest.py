"""Writes MANIFEST.json from the property list and the table of checks."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

AI = 'abstract interpretation of the package source'
GV = 'gated value numbering with effect summaries'
CHECKS = {
    'C01': (AI + ': ownership of every mutated object',
            'Every write in every public operation is attributed to '
            'allocation sites and caller-owned access paths; flow, context '
            'and field sensitive within the bounds given in DESIGN.md.'),
    'C02': (AI + ': storage reachable from results',
            'The abstract heap reachable from each result is searched for '
            'caller-owned containers.'),
    'C03': (AI + ': writes to handed-out objects',
            'Objects reachable from a yielded item get a new identity; later '
            'writes to it are findings.'),
    'C04': (AI + ': operands of order comparisons',
            'Operands of every order-sensitive operation are traced back to '
            'caller-supplied items.'),
    'C05': (AI + ': writes to import-time objects, effects',
            'Writes to objects that outlive a call, and calls with external '
            'effects, are enumerated over all public operations.'),
    'C06': (AI + ': resizing writes inside open loops',
            'Resizing writes are matched against the containers of all '
            'loops that are open and will continue.'),
    'C07': ('call graph resolved by ' + AI,
            'No function of the traversal modules is entered while active, '
            'generator resumptions and callbacks included.'),
    'C08': (AI + ' with failing guards; guard loops as formulas',
            'With its guard answering "invalid", no result is reachable and '
            'only the documented error escapes; guards written as loops are '
            'normalised to quantified formulas and compared.'),
    'C09': (AI + ': handlers against raised signals',
            'Every handler entered is matched with the exceptions raised in '
            'its body; escaping signals and non-Boolean answers are '
            'findings.'),
    'C10': (AI + ': names, attributes, arity, definite assignment',
            'Reports operations that fail for every value reaching them.'),
    'C11': (GV + ': outcomes of declaring and recording',
            'Every outcome of the conditions either raises the format error '
            'or makes the complete change; readers are searched for changes '
            'that go around this.'),
    'C12': (GV + ': mirror images of changes',
            'Every statement that records or removes an edge needs its '
            'mirror image under the same conditions and loops.'),
    'C13': (GV + ': mirrored links',
            'Effects of every updating method on both link tables are '
            'compared in each combination of its conditions.'),
    'C14': (GV + ': paired changes of redundant tables',
            'In each combination of conditions of every method, changes to '
            'one copy of a fact are matched with changes to the other.'),
    'C15': (GV + ': bit expressions as Boolean functions of one position',
            'Every stored, returned or tested bit expression is compared '
            'row by row with setting, clearing or testing one bit.'),
    'C16': (GV + ': changes composed with their undo actions',
            'In each combination of conditions, the changes of an action '
            'followed by the changes of the undo actions it pushes, last '
            'first, leave every working table as it was.'),
    'C17': (GV + ': guarded effects on the puzzle and bit functions',
            'Every stored mask is compared bit by bit with the old one; '
            'cells are filled only under conditions implying they may be.'),
    'C18': (GV + ': effects with the option taken as off',
            'With the option off, the condition of every change becomes '
            'false.'),
    'C19': (GV + ': normal form of written texts',
            'Every text written is brought into a normal form of constants '
            'and values, parsed, and compared attribute by attribute.'),
    'C20': (GV + ': outcomes compared with the definition',
            'Negation, equality, hash and reversal are compared with their '
            'definitions for every outcome of their conditions.'),
    'C21': (GV + ': truth tables of acceptance',
            'Every operator is reduced to a truth table over the acceptance '
            'of its operands; comparisons are evaluated on all patterns.'),
    'C22': (GV + ': effects before error exits',
            'No argument-dependent error exit follows a change under '
            'conditions that can hold together.'),
    'C23': (AI + ': operands of truth tests',
            'Every condition is recorded with the abstract values it may '
            'test; none may be a caller-supplied item.'),
    'C24': (AI + ': operations applied to graph arguments',
            'Every operation that reaches a graph or neighbour collection is '
            'compared with the documented interface.'),
    'C25': ('forward may-analysis of iterable parameters: aliases and number '
            'of passes', 'Passes over each documented iterable are counted '
            'through branches, loops, local functions and calls; a second '
            'pass, len, index or membership test is reported.'),
    'C26': (AI + ': writes to what a structure owns, by method',
            'Writes reached from a query method, its helpers or its '
            'generator are compared with the objects owned by the structure '
            'when the method is called.'),
    'C27': ('syntax and flow query: sources of real numbers',
            'Every arithmetic operation, constant and math function outside '
            'the real-valued modules is inspected; in ordered sequences real '
            'numbers are followed to the tags.'),
    'C28': ('effect analysis: constructs that walk a structure',
            'Expressions standing for the structure are followed through '
            'aliases and helpers; loops, copies, searches and eager '
            'built-ins over them are reported.'),
    'C29': ('taint analysis: supplied functions and iterables in handlers',
            'Parameters and fields holding functions or iterables of the '
            'caller are followed through aliases, helpers and methods; a try '
            'around their use whose handler can complete is reported.'),
    'C30': ('gated value numbering of the protocol methods',
            'Each answer is traced back to the table it comes from, through '
            'copies, views and counting loops; another table or a part of '
            'the table is reported. Updates of the tables are compared as '
            'for C13 and C14.'),
    'C31': ('effect analysis: constructs that exhaust or record enumerations',
            'Expressions standing for an enumeration are followed through '
            'aliases, wrappers and helpers to constructs that run them to '
            'the end; containers growing in yielding loops must be cut back; '
            'sieve entries are followed over the branches of a round.'),
    'C32': ('taint analysis of every argument, data and control dependence',
            'Each of 510 arguments is followed with strong updates through '
            'branches, loops, closures and calls to a result, effect or '
            'decision; 35 options that are handed on are followed to every '
            'call of the operation they are handed to.'),
    'C33': ('inference of one-shot iterators with pass counting',
            'Every expression of 510 functions that gives a one-shot iterator '
            'is found; 194 results, all fields and entries are inspected for '
            'them, and names bound to them are followed to a second pass.'),
    'C34': ('reachability of the ways out of every answering function',
            'The end and every return of 282 functions are inspected, with '
            'endless loops, complementary tests and functions that always '
            'raise recognised and helpers followed; every statement is '
            'searched for dropped iterators.'),
    'C35': ('must-change analysis of every way through each while loop',
            'For 96 loops the variables and fields that tests depend on and '
            'that are carried over to the next round are computed; every way '
            'back to the test must write one or do something that can change '
            'data.'),
}
WHY_NOT = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT,
                                                      'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CHECKS:
            tech, note = CHECKS[i]
            checks.append({
                'property': i,
                'quick_cmd': 'python3 static/check.py ' + i,
                'technique': tech, 'level': 'other', 'level_note': note})
        else:
            na.append({'property': i, 'reason': WHY_NOT.get(
                i, 'no static rule for it is built yet')})
    out = {'version': 1, 'setup_cmd': 'python3 static/setup.py',
           'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(out, fh, indent=1)
        fh.write('\n')


main()
