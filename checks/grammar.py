"""Reference grammar of BareScript expressions (hand-written, independent of the parser's tables and regexes)"""

LEVEL = {'**': 7, '*': 6, '/': 6, '%': 6, '+': 5, '-': 5, '<=': 4, '<': 4, '>=': 4, '>': 4, '==': 3, '!=': 3, '&&': 2, '||': 1}
OPS_LONG = sorted(LEVEL, key=len, reverse=True)


class Reject(Exception):
    pass


def _word(c):
    return c == '_' or c.isalnum()


def _start(c):
    return c == '_' or 'a' <= c <= 'z' or 'A' <= c <= 'Z'


class Reference:
    """Precedence climbing over characters; tree() returns the model or raises Reject"""

    def __init__(self, text):
        self.s = text
        self.i = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def peek(self):
        self.ws()
        return self.s[self.i] if self.i < len(self.s) else ''

    def tree(self):
        e = self.binary(0)
        if self.peek():
            raise Reject
        return e

    def op(self):
        self.ws()
        for o in OPS_LONG:
            if self.s.startswith(o, self.i):
                return o
        return None

    def binary(self, floor):
        left = self.unary()
        while True:
            o = self.op()
            if o is None or LEVEL[o] <= floor:
                return left
            self.i += len(o)
            left = {'binary': {'op': o, 'left': left, 'right': self.binary(LEVEL[o])}}

    def quoted(self, q):
        """Closing quote: the last one reachable when backslash escapes the backslash and the quote; a backslash before the only
        remaining quote is literal"""
        best = None
        out = []
        j = self.i + 1
        stack = []
        while j < len(self.s):
            c = self.s[j]
            if c == '\\' and j + 1 < len(self.s) and self.s[j + 1] in ('\\', q):
                stack.append(j)
                j += 2
                continue
            if c == q:
                best = j
                break
            j += 1
        if best is None:
            if q not in self.s[self.i + 1:]:
                raise Reject
            raise Unclear
        j = self.i + 1
        while j < best:
            if self.s[j] == '\\' and j + 1 < best and self.s[j + 1] in ('\\', q):
                j += 1
            out.append(self.s[j])
            j += 1
        self.i = best + 1
        return ''.join(out)

    def unary(self):
        c = self.peek()
        if not c:
            raise Reject
        if c == '(':
            self.i += 1
            e = self.binary(0)
            if self.peek() != ')':
                raise Reject
            self.i += 1
            return {'group': e}
        if c in '!-':
            self.i += 1
            return {'unary': {'op': c, 'expr': self.unary()}}
        if _start(c):
            j = self.i
            while j < len(self.s) and _word(self.s[j]):
                j += 1
            name = self.s[self.i:j]
            self.i = j
            if self.peek() == '(':
                self.i += 1
                args = []
                while self.peek() != ')':
                    if args:
                        if self.peek() != ',':
                            raise Reject
                        self.i += 1
                    args.append(self.binary(0))
                self.i += 1
                return {'function': {'name': name, 'args': args}}
            self.i = j
            return {'variable': name}
        if c.isdigit() or c == '+' and self.i + 1 < len(self.s) and self.s[self.i + 1].isdigit():
            j = self.i + 1
            while j < len(self.s) and self.s[j].isdigit():
                j += 1
            if j < len(self.s) and self.s[j] == '.':
                j += 1
                while j < len(self.s) and self.s[j].isdigit():
                    j += 1
            if self.s[j:j + 1] == 'e' and self.s[j + 1:j + 2] in ('+', '-') and self.s[j + 2:j + 3].isdigit():
                j += 3
                while j < len(self.s) and self.s[j].isdigit():
                    j += 1
            n = float(self.s[self.i:j])
            self.i = j
            return {'number': n}
        if c in '\'"':
            return {'string': self.quoted(c)}
        if c == '[':
            self.i += 1
            self.ws()
            out = []
            while self.i < len(self.s) and self.s[self.i] != ']':
                if self.s[self.i] == '\\' and self.s[self.i + 1:self.i + 2] in ('\\', ']'):
                    self.i += 1
                out.append(self.s[self.i])
                self.i += 1
            if self.i >= len(self.s) or not out:
                raise Reject
            self.i += 1
            return {'variable': ''.join(out)}
        raise Reject


class Unclear(Exception):
    """The reference does not settle this text"""


def parse(text):
    """The tree of an expression text, or None when it is not well-formed"""
    try:
        return Reference(text).tree()
    except Reject:
        return None
