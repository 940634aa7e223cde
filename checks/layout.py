"""Reference reading of script text: logical lines and the model of simple (unstructured) lines. Hand-written, independent of the parser."""

import re

from . import grammar


class Dangling(Exception):
    pass


def physical(text):
    parts = [text] if isinstance(text, str) else text
    return [ln[:-1] if ln.endswith('\r') and i < n - 1 else ln for p in parts for ls in [p.split('\n')] for n in [len(ls)] for i, ln in enumerate(ls)]


def blank_or_comment(line):
    s = line.strip()
    return not s or s.startswith('#')


def logical(text):
    """[(0-based physical line of the first part, joined text)]; raises Dangling when the text ends inside a continued line"""
    out, cur, at = [], None, None
    for i, ln in enumerate(physical(text)):
        if blank_or_comment(ln):
            continue
        body = ln.rstrip()
        cont = body.endswith('\\')
        if cont:
            body = body[:-1]
        if cur is None:
            at = i
            if not cont:
                out.append((i, ln))
                continue
            cur = [body.rstrip()]
        else:
            cur.append(body.strip())
            if not cont:
                out.append((at, ' '.join(cur)))
                cur = None
    if cur is not None:
        raise Dangling(at, ' '.join(cur))
    return out


NAME = r'[A-Za-z_]\w*'


def simple(line):
    """The statement model of a simple line, or None when it is not a well-formed simple line"""
    s = line.strip()
    m = re.fullmatch(rf'({NAME})\s*=\s*(.+)', s)
    if m:
        e = grammar.parse(m.group(2))
        return e and {'expr': {'name': m.group(1), 'expr': e}}
    m = re.fullmatch(rf'({NAME})\s*:', s)
    if m:
        return {'label': m.group(1)}
    m = re.fullmatch(rf'jump\s+({NAME})', s)
    if m:
        return {'jump': {'label': m.group(1)}}
    m = re.fullmatch(rf'jumpif\s*\((.+)\)\s+({NAME})', s)
    if m:
        e = grammar.parse(m.group(1))
        return e and {'jump': {'label': m.group(2), 'expr': e}}
    if s == 'return':
        return {'return': {}}
    m = re.fullmatch(r'return\s+(.+)', s)
    if m:
        e = grammar.parse(m.group(1))
        return e and {'return': {'expr': e}}
    m = re.fullmatch(r"include\s+'((?:\\'|[^'])*)'", s)
    if m:
        return {'include': {'includes': [{'url': re.sub(r"\\([\\'])", r'\1', m.group(1))}]}}
    m = re.fullmatch(r'include\s+<([^>]*)>', s)
    if m:
        return {'include': {'includes': [{'url': m.group(1), 'system': True}]}}
    e = grammar.parse(s)
    return e and {'expr': {'expr': e}}


HEADER = re.compile(rf'(async\s+)?function\s+({NAME})\s*\(\s*({NAME}(?:\s*,\s*{NAME})*)?(\s*\.\.\.)?\s*\)\s*:')


def model(text):
    """The model of a text of simple lines and functions of simple lines; None when some line is not well-formed"""
    top = []
    cur = top
    for _, line in logical(text):
        s = line.strip()
        m = HEADER.fullmatch(s)
        if m:
            if cur is not top:
                return None
            f = {'name': m.group(2), 'statements': []}
            if m.group(3):
                f['args'] = [a.strip() for a in m.group(3).split(',')]
            if m.group(1):
                f['async'] = True
            if m.group(4):
                f['lastArgArray'] = True
            top.append({'function': f})
            cur = f['statements']
            continue
        if s == 'endfunction':
            if cur is top:
                return None
            cur = top
            continue
        st = simple(line)
        if st is None:
            return None
        if 'include' in st and cur and 'include' in cur[-1]:
            cur[-1]['include']['includes'] += st['include']['includes']
        else:
            cur.append(st)
    return {'statements': top} if cur is top else None


def blocks(lines):
    """Block structure of logical lines: None when well-formed, else (index or set of indexes the error may name)"""
    stack = []           # (kind, index, has_else)
    fn = None            # (index, depth)
    for i, line in enumerate(lines):
        s = line.strip()
        w = re.match(r'[a-z]*', s).group(0)
        depth = fn[1] if fn else 0
        top = stack[-1] if len(stack) > depth else None
        block = s.endswith(':')
        if w in ('if', 'while', 'for') and block:
            stack.append([w, i, False])
        elif w == 'function' or w == 'async':
            if fn:
                return i
            fn = (i, len(stack))
        elif w == 'endfunction':
            if not fn:
                return i
            if len(stack) > fn[1]:
                return {i, fn[0], *(x[1] for x in stack[fn[1]:])}
            fn = None
        elif w in ('elif', 'else') and block:
            if not top or top[0] != 'if' or top[2]:
                return i
            top[2] = w == 'else'
        elif w in ('endif', 'endwhile', 'endfor') and s == w:
            if not top or top[0] != w[3:]:
                return i
            stack.pop()
        elif s in ('break', 'continue'):
            if not any(x[0] != 'if' for x in stack[depth:]):
                return i
    if stack or fn:
        return {x[1] for x in stack} | ({fn[0]} if fn else set())
    return None
