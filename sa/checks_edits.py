"""
Checks of the edits suggestions are made with: C20.
"""

from .core import Check
from .checks_lookup import RULE, events

P = 'algo.permutations:'
EDITS = ('replchars mapchars swapchar longswapchar badcharkey extrachar forgotchar movechar badchar doubletwochars '
         'twowords').split()


def c20():
    c = Check('C20', 'Each kind of edit produces exactly its edits', RULE +
              'Reference: the edits of every kind, for words of any length.')
    for f in EDITS:
        events(c, f, P + f, 'edits:' + f)
    return c.finish()


CHECKS = {'C20': c20}
