"""
C01, C02, C27: what queries change, what their answers depend on, what the package touches outside of itself.
"""

from . import capability
from .checks_lookup import events, state, value
from .checks_readers import FILES
from .core import Check
from .front import AnalysisError, loc
from .heap import Heap

ENTRIES = ['dictionary:Dictionary.lookup', 'dictionary:Dictionary.suggest', 'algo.lookup:Lookup.__call__',
           'algo.lookup:Lookup.good_forms', 'algo.suggest:Suggest.__call__', 'algo.suggest:Suggest.suggestions']


COMPARISONS = ('__lt__', '__le__', '__gt__', '__ge__', '__eq__')


def run(c, more=()):
    heap = Heap(c.prog)
    frames = heap.run([(c.prog.func(q), None) for q in [*ENTRIES, *more]])
    reached = {f.func.qual for f in heap.frames.values()}
    c.functions |= reached
    c.count('functions reached from queries', len(reached))
    c.count('contexts', len(heap.frames))
    return heap, frames


class Sink:
    """collects what is said of examples"""

    def __init__(self, prog):
        self.prog = prog
        self.found = set()

    def count(self, *args):
        pass

    def add(self, rule, subject, verdict, *args, **kw):
        if verdict == 'bad':
            self.found.add(subject.split(':')[1].strip())


def witness(c, expected, found):
    """examples must be recognised, otherwise the rule doesn't work"""
    if set(found) != set(expected):
        raise AnalysisError(f'examples recognised: {sorted(found)}, must be {sorted(expected)}')
    c.count('examples recognised', len(expected))


def examples(c):
    return [c.spec('witness:Kept.' + n) for n in ('remember', 'merge', 'listed', 'hashed', 'own')]


def tainted(frame):
    taint = frame.order | frame.elements.taint | frame.result.taint
    for o in frame.elements.objs | frame.result.objs:
        taint |= o.order if o.kind != 'inst' else frozenset()
        for v in o.fields.values():
            taint |= v.taint if o.kind == 'inst' else frozenset()
        if o.kind == 'iter':
            taint |= o.fields['*'].taint if '*' in o.fields else frozenset()
            for x in o.fields['*'].objs if '*' in o.fields else ():
                for v in x.fields.values():
                    taint |= v.taint
    return taint


def c01():
    c = Check('C01', 'Queries never change the loaded dictionary',
              'Ownership analysis of everything reachable from queries: each write (assignment to attribute or item, '
              'changing method, deletion, consumption of an iterator, reading of a dictionary that creates missing keys) must '
              'be to an object that the same query allocated.')
    ex = Heap(c.prog)
    ex.run([(f, None) for f in examples(c)])
    witness(c, ['remember', 'merge'], {w[0].name for w in ex.writes.values() if w[3] == 'bad'})
    heap, _ = run(c)
    for f, node, what, verdict, path in heap.writes.values():
        c.add('only objects of the query itself are changed', f'{f.qual}: {heap.text(node)}', verdict,
              what + ' (reached through ' + ' > '.join(path) + ')', loc(f.module, node))
    c.count('writes', len(heap.writes))
    for q in sorted(c.functions):
        c.add('nothing that outlives the query is changed by the function', q,
              'ok' if not any(w[0].qual == q and w[3] == 'bad' for w in heap.writes.values()) else 'unknown')
    return c.finish()


def c02():
    c = Check('C02', 'Answers do not depend on the process they are computed in',
              'Taint analysis of everything reachable from queries: the order of unordered collections, and values that differ '
              'from process to process, must not reach the answers, their order, or conditions they depend on.')
    ex = Heap(c.prog)
    witness(c, ['listed', 'hashed'], {q.split('.')[-1] for q, f in ex.run([(f, None) for f in examples(c)]).items() if tainted(f)})
    # orders of objects of the package: sorting calls them
    heap, frames = run(c, sorted(f.qual for f in c.prog.functions.values()
                                 if f.cls is not None and f.name in COMPARISONS and not f.qual.startswith('spec.')))
    for q, frame in frames.items():
        taint = tainted(frame)
        if not taint:
            c.add('answers are the same in every process', q, 'ok')
        for t in sorted(taint):
            f, node, what = heap.sources[t]
            c.add('answers are the same in every process', f'{q}: {what} @ {f.qual}', 'bad',
                  f'the answer depends on {what}: `{heap.text(node)}`', loc(f.module, node))
    for f, node in heap.unordered.values():
        c.add('going through an unordered collection does not influence the answers', f'{f.qual}: {heap.text(node)}', 'ok',
              where=loc(f.module, node))
    c.count('unordered collections gone through', len(heap.unordered))
    c.count('sources of arbitrary order', len(heap.sources))
    return c.finish()


def c27():
    c = Check('C27', 'Loading and queries only read the named dictionary files',
              'Capability analysis: every external name used in the package is resolved; running code, processes, network, '
              'environment and writing are allowed nowhere, opening of files only in functions that queries do not reach, and '
              'only for reading. Which files are opened is compared with the reference (guarded value-flow analysis).')
    sink = Sink(c.prog)
    fs = [c.spec('witness:' + n) for n in ('saves', 'runs', 'personal', 'reads')]
    capability.check(sink, set(), [(f.name + ':' + f.name, f.module, f.node) for f in fs])
    witness(c, ['saves', 'runs', 'personal'], sink.found)
    run(c)
    capability.check(c, set(c.functions))
    fr = 'readers.file_reader:'
    io = [fr + 'BaseReader.reset_io', fr + 'FileReader._open', fr + 'ZipReader._open', fr + 'BaseReader.readlines']
    for name, code, spec in [
            ('file', 'FileReader.__init__', 'file_init'), ('file opened again', 'FileReader.reset_encoding', 'file_reset'),
            ('archive', 'ZipReader.__init__', 'zip_init'), ('archive opened again', 'ZipReader.reset_encoding', 'zip_reset')]:
        events(c, name, fr + code, 'readers:' + spec, kinds=('call', 'methcall', 'effect'), watch=('call',), opaque=io)
        state(c, name, fr + code, 'readers:' + spec, opaque=io)
    value(c, 'file opened', fr + 'FileReader._open', 'readers:file_open')
    value(c, 'file of archive opened', fr + 'ZipReader._open', 'readers:zip_open')
    value(c, 'files of dictionary', 'dictionary:Dictionary.from_files', 'readers:from_files', opaque=FILES)
    value(c, 'archive of dictionary', 'dictionary:Dictionary.from_zip', 'readers:from_zip', opaque=FILES)
    value(c, 'system dictionary', 'dictionary:Dictionary.from_system', 'readers:from_system',
          opaque=[*FILES, 'dictionary:Dictionary.from_files'])
    return c.finish()


CHECKS = {'C01': c01, 'C02': c02, 'C27': c27}
