"""
Runs the check of one property: python3 check.py ID
"""

import signal
import sys

from sa.bdd import TooBig
from sa.core import main
from sa import (checks_bounds, checks_data, checks_edits, checks_finish, checks_lookup, checks_ngram, checks_readers, checks_suggest,
                checks_world)

CHECKS = {**checks_lookup.CHECKS, **checks_edits.CHECKS, **checks_data.CHECKS, **checks_readers.CHECKS,
          **checks_suggest.CHECKS, **checks_ngram.CHECKS, **checks_world.CHECKS,
          **checks_bounds.CHECKS, **checks_finish.CHECKS}

TECHNIQUES = {
    'C01': 'static analysis: ownership and effects of everything reachable from queries (abstract heap)',
    'C02': 'static analysis: dependence on order of sets, on process and on leftovers of other queries (abstract heap, taint)',
    'C03': 'static analysis: measures of loops and recursions (progress of positions, shrinking arguments, depth limits)',
    'C04': 'static analysis: bounds of positions and presence of keys (linear facts from guards and loop recurrences)',
    'C22': 'static analysis: constant propagation of each directive through the reader, guarded value-flow compared with a reference',
    'C25': 'static analysis: taint from file texts to regular expressions',
    'C27': 'static analysis: effects of calls on the outside world (inventory of external names, values of paths)',
}

LIMIT = 240, 60         # seconds for the analysis, and for each of its parts that are left then


def out_of_time(*_):
    raise TooBig


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    # what takes too long is left undecided
    signal.signal(signal.SIGALRM, out_of_time)
    signal.setitimer(signal.ITIMER_REAL, *LIMIT)
    sys.exit(main(CHECKS))
