"""
Normal form of constant regular expressions: the same for those different only in writing.
"""

import warnings

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        from re import _parser as sre_parse, _constants as sre_const
    except ImportError:
        import sre_parse
        import sre_constants as sre_const

USERS = ('search', 'match', 'fullmatch', 'split', 'findall', 'finditer', 'sub', 'subn')


def parse(pattern):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return sre_parse.parse(pattern)
    except Exception:
        return None


def items(tree, names):
    res = []
    for op, av in tree:
        if op is sre_const.SUBPATTERN:
            group, add, rem, sub = av
            inner = items(sub, names)
            if group is None and not add and not rem:
                res.extend(inner)
            else:
                res.append(('group', group, names.get(group), add, rem, tuple(inner)))
        elif op in (sre_const.MAX_REPEAT, sre_const.MIN_REPEAT):
            lo, hi, sub = av
            inner = items(sub, names)
            if (lo, hi) == (1, 1):
                res.extend(inner)
            else:
                res.append((str(op), lo, str(hi), tuple(inner)))
        elif op is sre_const.BRANCH:
            res.append(('branch', tuple(tuple(items(b, names)) for b in av[1])))
        elif op is sre_const.IN:
            members = set()
            for o, a in av:
                if o is sre_const.RANGE and a[1] - a[0] < 64:
                    members |= {('LITERAL', str(x)) for x in range(a[0], a[1] + 1)}
                else:
                    members.add((str(o), str(a)))
            if len(members) == 1 and next(iter(members))[0] == 'LITERAL':
                res.append(next(iter(members)))
            else:
                res.append(('in', tuple(sorted(members))))
        elif op in (sre_const.ASSERT, sre_const.ASSERT_NOT):
            res.append((str(op), av[0], tuple(items(av[1], names))))
        elif op is sre_const.LITERAL:
            res.append(('LITERAL', str(av)))
        else:
            res.append((str(op), repr(av)))
    return res


def canonical(pattern):
    """hashable form, or None"""
    tree = parse(pattern)
    if tree is None:
        return None
    names = {v: k for k, v in tree.state.groupdict.items()}
    return tree.state.flags, tuple(items(tree, names))


def without_start(pattern):
    """the same expression for use in match(), where the start of text is required anyway"""
    tree = parse(pattern)
    if tree is not None and pattern.startswith('^') and len(tree) > 1 and \
            not any(op is sre_const.BRANCH for op, _ in tree):
        return pattern[1:]
    return pattern
