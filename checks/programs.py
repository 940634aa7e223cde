"""Structured programs: skeletons, source text and a reference big-step interpreter.

Statements are tuples:
  ('log', tag)  ('set', name, expr)  ('if', [(cond, block), ..], else_block|None)  ('while', cond, block)
  ('for', value, index|None, array, block)  ('break',)  ('continue',)  ('return', expr|None)
  ('func', name, params, block)  ('call', result|None, name, [expr])
Expressions: ('c', k) a fresh undetermined condition; ('var', n); ('lit', text, value); ('log1', n) ...
"""

import itertools


def text(block, ind=0):
    out = []
    p = '    ' * ind
    for s in block:
        k = s[0]
        if k == 'log':
            out.append(f"{p}log('{s[1]}'{''.join(', ' + v for v in s[2:])})")
        elif k == 'set':
            out.append(f'{p}{s[1]} = {ex(s[2])}')
        elif k == 'if':
            for i, (c, b) in enumerate(s[1]):
                out.append(f'{p}{"if" if i == 0 else "elif"} {ex(c)}:')
                out += text(b, ind + 1)
            if s[2] is not None:
                out.append(f'{p}else:')
                out += text(s[2], ind + 1)
            out.append(f'{p}endif')
        elif k == 'while':
            out.append(f'{p}while {ex(s[1])}:')
            out += text(s[2], ind + 1)
            out.append(f'{p}endwhile')
        elif k == 'for':
            out.append(f'{p}for {s[1]}{", " + s[2] if s[2] else ""} in {s[3] if isinstance(s[3], str) else ex(s[3])}:')
            out += text(s[4], ind + 1)
            out.append(f'{p}endfor')
        elif k in ('break', 'continue'):
            out.append(p + k)
        elif k == 'return':
            out.append(f'{p}return{" " + ex(s[1]) if s[1] is not None else ""}')
        elif k == 'func':
            out.append(f'{p}function {s[1]}({", ".join(s[2])}):')
            out += text(s[3], ind + 1)
            out.append(f'{p}endfunction')
        elif k == 'call':
            out.append(f'{p}{s[1] + " = " if s[1] else ""}{s[2]}({", ".join(ex(e) for e in s[3])})')
        else:
            raise AssertionError(k)
    return out


def ex(e):
    if e[0] == 'c':
        return f"cond('{e[1]}')"
    if e[0] == 'var':
        return e[1]
    if e[0] == 'lit':
        return e[1]
    if e[0] == 'not':
        return '!' + ex(e[1])
    if e[0] in ('and', 'or'):
        return f'{ex(e[1])} {"&&" if e[0] == "and" else "||"} {ex(e[2])}'
    if e[0] == 'call':
        return f'{e[1]}({", ".join(ex(x) for x in e[2])})'
    if e[0] == 'group':
        return f'({ex(e[1])})'
    raise AssertionError(e)


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Mismatch(Exception):
    """The reference asked for a decision the run did not take"""


class BigStep:
    """Direct structured reading of a program. `host` maps names of host functions to Python callables of the argument list."""

    def __init__(self, globals_, host, truth):
        self.g = globals_
        self.host = host
        self.truth = truth
        self.funcs = {}
        self.fuel = 3000

    def run(self, block):
        try:
            self.block(block, None)
        except Ret as r:
            return r.args[0]
        return None

    def block(self, b, loc):
        for s in b:
            self.stmt(s, loc)

    def assign(self, n, v, loc):
        (self.g if loc is None else loc)[n] = v

    def stmt(self, s, loc):
        self.fuel -= 1
        if self.fuel < 0:
            raise Mismatch('the structured reading does not terminate')
        k = s[0]
        if k == 'log':
            self.host['log']([s[1]] + [self.eval(('var', v), loc) for v in s[2:]])
        elif k == 'set':
            self.assign(s[1], self.eval(s[2], loc), loc)
        elif k == 'if':
            for c, b in s[1]:
                if self.truth(self.eval(c, loc)):
                    self.block(b, loc)
                    return
            if s[2] is not None:
                self.block(s[2], loc)
        elif k == 'while':
            while self.truth(self.eval(s[1], loc)):
                self.fuel -= 1
                if self.fuel < 0:
                    raise Mismatch('the structured reading does not terminate')
                try:
                    self.block(s[2], loc)
                except Brk:
                    break
                except Cont:
                    continue
        elif k == 'for':
            arr = self.eval(('var', s[3]) if isinstance(s[3], str) else s[3], loc)
            if not isinstance(arr, list):
                return
            for i, v in enumerate(list(arr)):
                self.assign(s[1], v, loc)
                if s[2]:
                    self.assign(s[2], i, loc)
                try:
                    self.block(s[4], loc)
                except Brk:
                    break
                except Cont:
                    continue
        elif k == 'break':
            raise Brk
        elif k == 'continue':
            raise Cont
        elif k == 'return':
            raise Ret(self.eval(s[1], loc) if s[1] is not None else None)
        elif k == 'func':
            self.funcs[s[1]] = s
        elif k == 'call':
            v = self.call(s[2], [self.eval(e, loc) for e in s[3]])
            if s[1]:
                self.assign(s[1], v, loc)

    def call(self, name, args):
        if name in self.funcs:
            f = self.funcs[name]
            loc = {p: args[i] if i < len(args) else None for i, p in enumerate(f[2])}
            try:
                self.block(f[3], loc)
            except Ret as r:
                return r.args[0]
            return None
        return self.host[name](args)

    def eval(self, e, loc):
        k = e[0]
        if k == 'c':
            return self.host['cond']([e[1]])
        if k == 'var':
            if e[1] == 'true':
                return True
            return loc[e[1]] if loc is not None and e[1] in loc else self.g.get(e[1])
        if k == 'lit':
            return e[2]
        if k == 'not':
            return not self.truth(self.eval(e[1], loc))
        if k == 'and':
            a = self.eval(e[1], loc)
            return self.eval(e[2], loc) if self.truth(a) else a
        if k == 'or':
            a = self.eval(e[1], loc)
            return a if self.truth(a) else self.eval(e[2], loc)
        if k == 'group':
            return self.eval(e[1], loc)
        if k == 'call':
            return self.call(e[1], [self.eval(x, loc) for x in e[2]])
        raise AssertionError(e)


# -- skeletons ---------------------------------------------------------------------------------------------

KINDS = ('if', 'ifelse', 'ifelif', 'ifelifelse', 'while', 'for', 'forix')
LOOPS = ('while', 'for', 'forix')
_n = itertools.count()


class Maker:
    """Builds skeletons with distinct tags"""

    def __init__(self):
        self.n = 0

    def tag(self):
        self.n += 1
        return f't{self.n}'

    def log(self, *vs):
        return ('log', self.tag(), *vs)

    def cond(self):
        self.n += 1
        return ('c', f'c{self.n}')

    def guard(self, jump):
        """if cond: jump endif"""
        return ('if', [(self.cond(), [jump])], None)

    def make(self, kind, body, arr='arr'):
        """A construct whose (first) body is `body(self, extra log variables)`"""
        self.n += 1
        m = self.n
        if kind == 'if':
            return ('if', [(self.cond(), body(()))], None)
        if kind == 'ifelse':
            return ('if', [(self.cond(), body(()))], [self.log()])
        if kind == 'elsebody':
            return ('if', [(self.cond(), [self.log()])], body(()))
        if kind == 'ifelif':
            return ('if', [(self.cond(), [self.log()]), (self.cond(), body(()))], None)
        if kind == 'ifelifelse':
            c1, c2 = self.cond(), self.cond()
            return ('if', [(c1, [self.log()]), (c2, body(()))], [self.log()])
        if kind == 'while':
            return ('while', self.cond(), body(()))
        if kind == 'whiletrue':
            # (a test with a tag in B is true once the path's undetermined tests are used up)
            self.n += 1
            return ('while', ('var', 'true'), [('if', [(('c', f'B{self.n}'), [('break',)])], None)] + body(()))
        if kind == 'for':
            return ('for', f'v{m}', None, arr, body((f'v{m}',)))
        if kind == 'forix':
            return ('for', f'v{m}', f'i{m}', arr, body((f'v{m}', f'i{m}')))
        raise AssertionError(kind)


def jumps(inloop, infunc=True):
    js = [None]
    if inloop:
        js += [('break',), ('continue',)]
    return js + [('return', ('lit', "'r'", 'r'))]


def depth1(kinds=KINDS + ('whiletrue', 'elsebody')):
    for k in kinds:
        loop = k in LOOPS or k == 'whiletrue'
        for j in jumps(loop):
            for shape in range(4 if j else 1):
                m = Maker()

                def body(vs):
                    if j is None:
                        return [m.log(*vs)]
                    if shape == 0:
                        return [m.log(*vs), m.guard(j), m.log()]
                    if shape == 1:
                        return [m.guard(j), m.log(*vs)]
                    if shape == 2:
                        return [m.log(*vs), j, m.log()]
                    return [m.log(*vs), ('if', [(m.cond(), [m.log()])], [j]), m.log()]
                yield f'{k} {j and j[0]} {shape}', [m.log(), m.make(k, body), m.log()]
        # empty body, two in sequence
        m = Maker()
        if k != 'whiletrue':
            yield f'{k} empty', [m.make(k, lambda vs: []), m.log()]
        m = Maker()
        yield f'{k} twice', [m.make(k, lambda vs: [m.log(*vs)]), m.make(k, lambda vs: [m.log(*vs)]), m.log()]


def depth2(kinds=KINDS + ('whiletrue', 'elsebody')):
    for k1 in kinds:
        for k2 in kinds:
            loop1, loop2 = (k in LOOPS or k == 'whiletrue' for k in (k1, k2))
            for j2 in jumps(loop1 or loop2):
                for j1 in ([None] if not loop1 else [None, ('break',), ('continue',)]):
                    if j1 and j2 and j1 != j2 and j2[0] == 'return':
                        continue
                    m = Maker()

                    def inner(vs):
                        return [m.log(*vs)] + ([m.guard(j2), m.log()] if j2 else [])

                    def outer(vs):
                        b = [m.log(*vs), m.make(k2, inner, 'brr')]
                        return b + ([m.guard(j1), m.log()] if j1 else [m.log()])
                    yield f'{k1}[{k2}[{j2 and j2[0]}] {j1 and j1[0]}]', [m.make(k1, outer), m.log()]


def depth3(kinds=('if', 'ifelse', 'ifelif', 'while', 'for')):
    for k1 in kinds:
        for k2 in kinds:
            for k3 in kinds:
                loops = [k in LOOPS for k in (k1, k2, k3)]
                for j in jumps(any(loops)):
                    m = Maker()

                    def b3(vs):
                        return [m.log(*vs)] + ([m.guard(j)] if j else []) + [m.log()]

                    def b2(vs):
                        return [m.make(k3, b3, 'crr'), m.log(*vs)]

                    def b1(vs):
                        return [m.make(k2, b2, 'brr'), m.log(*vs)]
                    yield f'{k1}[{k2}[{k3}[{j and j[0]}]]]', [m.make(k1, b1), m.log()]


def infunction(name, block, calls=2):
    """The block as a function body, called several times; locals must not leak"""
    return f'function {name}', [('func', 'fn', ['p'], block)] + [x for i in range(calls) for x in
                                                               (('call', 'res', 'fn', [('lit', f"'a{i}'", f'a{i}')]), ('log', f'after{i}', 'res'))]
