"""Decisions about constant regular expressions on abstract text."""

import re

from .values import Sym

try:
    from re import _parser as sre_parse
except ImportError:   # pragma: no cover
    import sre_parse


def group_optional(pat, ix):
    """May group ix be unset in a successful match?"""
    if ix == 0:
        return False
    tree = sre_parse.parse(pat.pattern, pat.flags)

    def find(items, opt):
        for op, av in items:
            name = str(op)
            if name == 'SUBPATTERN':
                if av[0] == ix:
                    return opt
                r = find(av[3], opt)
                if r is not None:
                    return r
            elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                r = find(av[2], opt or av[0] == 0)
                if r is not None:
                    return r
            elif name == 'BRANCH':
                for b in av[1]:
                    r = find(b, True)
                    if r is not None:
                        return r
            elif name in ('ASSERT', 'ASSERT_NOT'):
                r = find(av[1], opt)
                if r is not None:
                    return r
            elif name == 'ATOMIC_GROUP':
                r = find(av, opt)
                if r is not None:
                    return r
        return None
    return bool(find(tree, False))


def group_is_digits(pattern, flags, ix):
    """Does group ix only match non-empty digit strings?"""
    try:
        tree = sre_parse.parse(pattern, flags)
    except re.error:
        return False

    def find(items):
        for op, av in items:
            name = str(op)
            if name == 'SUBPATTERN':
                if av[0] == ix:
                    return av[3]
                r = find(av[3])
                if r is not None:
                    return r
            elif name in ('MAX_REPEAT', 'MIN_REPEAT'):
                r = find(av[2])
                if r is not None:
                    return r
            elif name == 'BRANCH':
                for b in av[1]:
                    r = find(b)
                    if r is not None:
                        return r
        return None
    body = find(tree)
    if body is None:
        return False

    def digits(items):
        n = 0
        for op, av in items:
            name = str(op)
            if name in ('MAX_REPEAT', 'MIN_REPEAT'):
                if not digits(av[2]):
                    return False
                n += av[0]
            elif name == 'IN':
                if not all(str(o) == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT' or str(o) == 'RANGE' and 48 <= a[0] and a[1] <= 57 or
                           str(o) == 'LITERAL' and 48 <= a <= 57 for o, a in av):
                    return False
                n += 1
            elif name == 'LITERAL':
                if not 48 <= av <= 57:
                    return False
                n += 1
            else:
                return False
        return n > 0
    return digits(body)


def decide_match(it, pat, how, s):
    return None


def decide_sub(it, pat, repl, s, rest):
    return None


def breaks_only(p):
    """Every match consists of carriage returns and line feeds, and nothing else is looked at"""
    try:
        tree = sre_parse.parse(p.pattern, p.flags)
    except Exception:
        return False

    def ok(items):
        for op, av in items:
            n = str(op)
            if n == 'LITERAL':
                if av not in (10, 13):
                    return False
            elif n == 'IN':
                if not all(str(o) == 'LITERAL' and a in (10, 13) for o, a in av):
                    return False
            elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
                if not ok(av[2]):
                    return False
            elif n == 'SUBPATTERN':
                if av[0] is not None or not ok(av[3]):
                    return False
            elif n == 'BRANCH':
                if not all(ok(b) for b in av[1]):
                    return False
            else:
                return False
        return True
    return ok(tree)
