"""Reference execution of statement models, by the documented statement semantics, in the same abstract domain"""

from absint.values import ABound, AFunc, AInst, APartial, HostFn, PyExc, Sym, show

from .c03 import Ref, ref_truth


class RefError(Exception):
    """A runtime error of the reference run: the message"""


class RefParserError(Exception):
    def __init__(self, url):
        super().__init__(url)
        self.url = url


def resolve(base, url):
    """Resolve an include path against the file that contains the statement (POSIX paths)"""
    scheme = url.split(':', 1)[0]
    if ':' in url and scheme and all('a' <= c <= 'z' for c in scheme):
        return url
    if url.startswith('/'):
        return norm_path(url)
    if base is None:
        return url
    bs = base.split(':', 1)[0]
    if ':' in base and bs and all('a' <= c <= 'z' for c in bs):
        return base[:base.rfind('/') + 1] + url
    d = base[:base.rfind('/') + 1]
    return d + norm_path(url)


def norm_path(p):
    """Collapse repeated slashes and '.' parts of a POSIX path ('..' is kept)"""
    parts = [x for x in p.split('/') if x not in ('', '.')]
    s = '/'.join(parts)
    if p.startswith('/'):
        return '/' + s
    return s or '.'


class RefFunc:
    """A script-defined function of the reference run"""

    def __init__(self, run, model, base):
        self.run = run
        self.model = model
        self.base = base

    def host(self):
        def fn(it, a, kw):
            try:
                return self.run.out(self.run.call(self, a[0]))
            except RefError as e:
                self.run.failed = e
                raise PyExc(it.call(self.run.ref.error, [str(e)], {})) from None
            except RefParserError as e:
                self.run.failed = e
                raise PyExc(it.call(self.run.ref.error, ['\0' + e.url], {})) from None
        h = HostFn(self.model['name'], fn)
        h.ref = self
        return h


class RefRun:
    """One run: globals_ (a dict), limit (0: unlimited), fetch: url -> model | text | None, base: location of the script"""

    def __init__(self, ref, it, globals_, limit=0, library=(), fetch=None, parse=None, prefix=None, base=None, counted=None):
        self.ref = ref            # reference operators
        self.it = it
        self.globals = globals_
        self.limit = limit
        self.count = 0
        self.fetch = fetch
        self.parse = parse
        self.prefix = prefix
        self.base = base
        self.current = base       # location of the file whose statement is executed
        self.fetched = []
        self.builtins = {}        # the built-in functions of the expression language (data expressions)
        self.failed = None        # a runtime error ends the whole run, whatever is on the call stack
        for n, f in dict(library).items():
            if n not in globals_:
                globals_[n] = f

    # -- statements
    def run(self, script):
        """('ok', value) | ('runtime', message) | ('parser', url)"""
        self.count = 0
        try:
            return ('ok', self.block(script['statements'], None, self.base))
        except RefError as e:
            return ('runtime', str(e))
        except RefParserError as e:
            return ('parser', e.url)

    def block(self, statements, local, base):
        outer, self.current = self.current, base
        try:
            return self.statements(statements, local, base)
        finally:
            self.current = outer

    def statements(self, statements, local, base):
        ix = 0
        while ix < len(statements):
            key, st = next(iter(statements[ix].items()))
            if self.limit > 0 and self.count >= self.limit:
                raise RefError(f'Exceeded maximum script statements ({self.limit})')
            self.count += 1
            if key == 'expr':
                v = self.eval(st['expr'], local)
                if st.get('name') is not None:
                    (self.globals if local is None else local)[st['name']] = v
            elif key == 'jump':
                if 'expr' not in st or ref_truth(self.it, self.eval(st['expr'], local)):
                    for i, other in enumerate(statements):
                        if 'label' in other and other['label'] == st['label']:
                            ix = i
                            break
                    else:
                        raise RefError(f'Unknown jump label "{st["label"]}"')
            elif key == 'return':
                return self.eval(st['expr'], local) if 'expr' in st else None
            elif key == 'function':
                self.globals[st['name']] = RefFunc(self, st, base)
            elif key == 'include':
                for inc in st['includes']:
                    url = inc['url']
                    if inc.get('system') and self.prefix is not None:
                        url = resolve(self.prefix, url)
                    else:
                        url = resolve(base, url)
                    self.fetched.append(url)
                    self.it.effect('fetch', url)
                    text = self.fetch(url) if self.fetch is not None else None
                    if text is None:
                        raise RefError(f'Include of "{url}" failed')
                    script = self.parse(text)
                    if script is None:
                        raise RefParserError(url)
                    self.block(script['statements'], None, url)
            ix += 1
        return None

    def call(self, f, args):
        params = f.model.get('args', [])
        local = {}
        for i, p in enumerate(params):
            last = i == len(params) - 1 and f.model.get('lastArgArray')
            local[p] = list(args[i:]) if last else (args[i] if i < len(args) else None)
        return self.block(f.model['statements'], local, f.base)

    # -- expressions
    def eval(self, e, local):
        k, v = next(iter(e.items()))
        if k in ('number', 'string'):
            return v
        if k == 'variable':
            if v in ('null', 'true', 'false'):
                return {'null': None, 'true': True, 'false': False}[v]
            if local is not None and v in local:
                return local[v]
            return self.globals.get(v)
        if k == 'group':
            return self.eval(v, local)
        if k == 'unary':
            x = self.eval(v['expr'], local)
            if v['op'] == '!':
                return not ref_truth(self.it, x)
            from .c03 import is_num
            return self.it.unary('-', x) if is_num(self.it, x) else None
        if k == 'binary':
            a = self.eval(v['left'], local)
            if v['op'] in ('&&', '||'):
                return self.eval(v['right'], local) if ref_truth(self.it, a) == (v['op'] == '&&') else a
            return self.ref.binop(self.it, v['op'], a, self.eval(v['right'], local))
        assert k == 'function', k
        args, name = v.get('args', []), v['name']
        if name == 'if':
            c = ref_truth(self.it, self.eval(args[0], local)) if args else False
            ix = 1 if c else 2
            return self.eval(args[ix], local) if len(args) > ix else None
        vals = [self.eval(a, local) for a in args]
        if local is not None and name in local:
            f = local[name]
        else:
            f = self.globals.get(name)
        if f is None:
            f = self.builtins.get(name)
        if f is None:
            raise RefError(f'Undefined function "{name}"')
        return self.apply(f, vals)

    def apply(self, f, vals):
        if isinstance(f, RefFunc):
            return self.call(f, vals)
        if isinstance(f, HostFn) and getattr(f, 'ref', None) is not None:
            return self.call(f.ref, vals)
        if not callable(f) and not isinstance(f, (AFunc, APartial, HostFn)):
            return None
        # a host or library function: script functions among the arguments become callables
        try:
            view = {k: self.out(x) for k, x in self.globals.items()}
            before = dict(view)
            try:
                r = self.it.call(f, [[self.out(x) for x in vals], {'globals': view}], {})
            finally:
                for k, x in view.items():
                    if k not in before or before[k] is not x:
                        self.globals[k] = self.back(x)
            if self.failed is not None:
                raise self.failed
            return self.back(r)
        except PyExc as e:
            if self.failed is not None:
                raise self.failed from None
            if self.ref.error in getattr(getattr(e.inst, 'cls', None), 'mro', []):
                msg = e.inst.attrs['args'][0]
                raise (RefParserError(msg[1:]) if msg.startswith('\0') else RefError(msg)) from None
            rv = getattr(e.inst, 'attrs', {}).get('return_value') if getattr(e.inst, 'attrs', None) else None
            return rv

    def out(self, v):
        return v.host() if isinstance(v, RefFunc) else v

    def back(self, v):
        return getattr(v, 'ref', None) or v if isinstance(v, HostFn) else v


def matches(it, got, want, seen=()):
    """Three-valued: the analysed value is the reference value; a script function matches any function of the analysed program"""
    if isinstance(want, HostFn) and getattr(want, 'ref', None) is not None:
        want = want.ref
    if isinstance(want, RefFunc):
        if isinstance(got, APartial):
            fs = [a for a in got.args if isinstance(a, dict) and 'statements' in a and 'name' in a]
            return fs[0] == want.model if fs else True
        return isinstance(got, (AFunc, ABound, AInst)) or (None if isinstance(got, Sym) else False)
    if id(want) in seen:
        return None
    if isinstance(want, AFunc) and isinstance(got, AFunc) and got.node is want.node:
        return True       # two closures of one function expression
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return it.same(got, want)
        if list(got) != list(want):
            return False if set(got) != set(want) else None
        return allof(matches(it, got[k], want[k], seen + (id(want),)) for k in want)
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            return it.same(got, want)
        if len(got) != len(want):
            return False
        return allof(matches(it, a, b, seen + (id(want),)) for a, b in zip(got, want))
    return it.same(got, want)


def allof(rs):
    out = True
    for r in rs:
        if r is False:
            return False
        if r is None:
            out = None
    return out


def outcome(it, f, *args):
    """Run the analysed function: ('ok', value) | ('runtime', message) | ('parser', text) | ('raise', class name)"""
    try:
        return ('ok', it.call(f, list(args), {}))
    except PyExc as e:
        x = e.inst
        cls = getattr(x, 'cls', None)
        names = [getattr(c, 'name', '') for c in cls.mro] if cls is not None and isinstance(getattr(cls, 'mro', None), list) else [type(x).__name__]
        a = getattr(x, 'attrs', None)
        if 'BareScriptRuntimeError' in names:
            return ('runtime', a['args'][0] if a.get('args') else None)
        if 'BareScriptParserError' in names:
            return ('parser', show(a['args'][0])[:400] if a.get('args') else '')
        return ('raise', f'{names[0]} {show(x)[:200]}')


__all__ = ['Ref', 'RefError', 'RefFunc', 'RefParserError', 'RefRun', 'Sym', 'allof', 'matches', 'norm_path', 'outcome', 'resolve']
