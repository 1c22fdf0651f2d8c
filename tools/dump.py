"""Prints guarded events of function: python3 tools/dump.py algo.lookup:Lookup.good_forms [opaque ...]"""
import sys, time
sys.path.insert(0, '/verif')
from sa.front import Program
from sa.alg import Alg, show, show_cube
from sa.engine import Engine

def dump(eng, guards=True):
    alg = eng.alg
    for e in eng.events:
        print(e.kind, e.where, '|', ' ; '.join(map(repr, e.binders)))
        print('    ', repr(e.term)[:300])
        if guards:
            f = alg.bdd.forced(e.guard)
            print('     IF', show_cube(alg, f)[:1500], '' if alg.bdd.cube(e.guard) == f else '...more')

if __name__ == '__main__':
    prog = Program()
    alg = Alg(prog)
    alg.nonnull_opts.add('data.aff:Aff')
    eng = Engine(prog, alg, opaque=sys.argv[2:])
    t = time.time()
    st, val = eng.run(prog.func(sys.argv[1]), {})
    dump(eng)
    print('RETURN', repr(val)[:500], 'truth', eng.truth(val))
    print(len(alg.terms), 'terms', len(alg.atoms), 'atoms', len(alg.bdd.nodes), 'nodes', eng.steps, 'steps', time.time() - t)
