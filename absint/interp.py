"""Abstract interpreter over the Python syntax trees of the analysed repository.

The analysed modules are read as text and parsed with `ast`; nothing of them is imported, compiled to byte code or
executed.  Values are those of `values.py`.  Undecided branches split the analysis of a cell into paths (trace
partitioning); `explore` enumerates the paths of one cell.
"""

import ast
import collections
import importlib
import sys
import threading
import time

from .closed import consistent
from .facts import Facts, Infeasible
from .models import ACache, Models
from .ops import Ops
from .zones import LocalTime
from .values import (ABound, ACallable, AClass, ADispatch, AFunc, AInst, AModule, APartial, AUnknown, AProp, AStatic, ASuper, CUR, Diverged, Endless, HostFn,
                     PyExc, Sym, Unsupported, deep_concrete, show)

sys.setrecursionlimit(40000)
threading.stack_size(512 * 1024 * 1024)


CHUNK = 500        # steps between two looks at the clock


class Signal:
    __slots__ = ('kind', 'value')

    def __init__(self, kind, value=None):
        self.kind = kind
        self.value = value


BRK = Signal('break')
CNT = Signal('continue')


class FuncInfo:
    """Scope information of a function, lambda, comprehension or class body"""
    __slots__ = ('locals', 'globals', 'nonlocals', 'is_gen', 'kind', 'name', 'body', 'args')

    def __init__(self, kind, name):
        self.kind = kind
        self.name = name
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False
        self.body = None
        self.args = None


class Frame:
    __slots__ = ('vars', 'parent', 'info', 'module', 'func', 'exc', 'self_')

    def __init__(self, info, module, parent, func=None):
        self.vars = {}
        self.parent = parent
        self.info = info
        self.module = module
        self.func = func
        self.exc = None
        self.self_ = None


class Path:
    """The outcome of one path of a cell"""

    def __init__(self, it, kind, value=None, note=None):
        self.kind = kind              # 'return' | 'raise' | 'undecided'
        self.value = value
        self.note = note
        self.effects = list(it.effects)
        self.decisions = list(it.decisions)
        self.facts = it.facts
        self.imprecise = list(it.imprecise)
        self.mutations = list(it.mutations)
        self.loc = it.loc
        self.calls = list(it.calllog) if it.log_calls else []

    def exc_name(self):
        v = self.value
        return v.clsname() if isinstance(v, AInst) else type(v).__name__

    def __repr__(self):
        return f'<path {self.kind} {show(self.value)} {self.note or ""} effects={show(self.effects)}>'


def collect_scope(info, nodes):
    """Names bound in a scope"""
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                info.locals.add(n.id)

        def visit_FunctionDef(self, n):
            info.locals.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            info.locals.add(n.name)
            for d in n.decorator_list + n.bases:
                self.visit(d)

        def visit_Lambda(self, n):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d)

        def comp(self, n):
            # the first iterable belongs to this scope; walrus targets bind here
            self.visit(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    info.locals.add(w.target.id)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

        def visit_Global(self, n):
            info.globals.update(n.names)

        def visit_Nonlocal(self, n):
            info.nonlocals.update(n.names)

        def visit_Import(self, n):
            for a in n.names:
                info.locals.add(a.asname or a.name.split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                info.locals.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                info.locals.add(n.name)
            self.generic_visit(n)

        def visit_MatchAs(self, n):
            if n.name:
                info.locals.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                info.locals.add(n.name)

        def visit_MatchMapping(self, n):
            if n.rest:
                info.locals.add(n.rest)
            self.generic_visit(n)

        def visit_Yield(self, n):
            info.is_gen = True
            self.generic_visit(n)
        visit_YieldFrom = visit_Yield
    v = V()
    for n in nodes:
        v.visit(n)
    info.locals -= info.globals | info.nonlocals
    return info


NATIVE_MODULES = {
    're', 'math', 'json', 'datetime', 'calendar', 'functools', 'itertools', 'operator', 'collections', 'collections.abc', 'string',
    'statistics', 'copy', 'random', 'os', 'os.path', 'pathlib', 'urllib', 'urllib.parse', 'urllib.request', 'csv', 'io', 'uuid', 'time',
    'sys', 'importlib', 'importlib.resources', 'argparse', 'typing', 'dataclasses', 'enum', 'abc', 'contextlib', 'textwrap', 'bisect',
    'heapq', 'types', 'unicodedata', 'html', 'decimal', 'fractions', 'numbers', 'locale', 'zoneinfo', 'posixpath', 'hashlib', 'json.encoder', 'json.decoder',
    '__future__', 'warnings', 'weakref', 'threading', 'struct', 'codecs', 'inspect', 'traceback', 'logging', 'keyword', 'cmath', 'reprlib',
    'array', 'queue', 'graphlib', 'urllib.error', 'email', 'time', 'errno', 'stat', 'shutil', 'tempfile', 'pprint', 'difflib', 'ast', 'tokenize'
}


class Interp(Ops, Models, LocalTime):
    def __init__(self, src_root, package='bare_script', fuel=400000):
        self.src_root = src_root
        self.package = package
        self.modules = {}
        self.loading = []
        self.fuel0 = fuel
        self.coverage = set()
        self.functions_seen = set()
        self.sources = {}
        self.exc_forks = False
        self.set_flip = False       # the other iteration order of sets of strings
        self.max_choices = 60
        self.log_calls = False
        self.watch_calls = None
        self.overrides = {}         # (module, function name) -> HostFn summary
        self.host_natives = {}      # native function -> HostFn standing for it
        self.max_depth = 990      # Python's default recursion limit, less the caller's frames
        self.cell_time = 8.0        # seconds per cell; a cell that takes longer is undecided
        self.deadline = float('inf')
        self._snap = None
        self.unmodelled = []        # top-level definitions the analyser does not model
        self.reset()

    # -- paths -----------------------------------------------------------------------------------------
    def reset(self):
        self.facts = Facts()
        self.choices = []
        self.choice_ix = 0
        self._begin()

    def _begin(self):
        self.facts = Facts()
        self.choice_ix = 0
        self.decisions = []
        self.effects = []
        self.imprecise = []
        self.mutations = []
        self.frozen = {}
        self.set_flip = False
        self.fuel, self.spent = CHUNK, 0
        self.depth = 0
        self.loc = None
        self.fresh_n = 0
        self.calllog = []
        self.causes = {}

    def refuel(self):
        self.spent += CHUNK
        if self.spent > self.fuel0 or time.monotonic() > self.deadline:
            raise Diverged('step budget exhausted')
        self.fuel = CHUNK

    def explore(self, thunk, max_paths=3000, restore=True):
        """All paths of `thunk(interp)`; the list carries .complete"""
        out = PathList()
        self.choices = []
        self.deadline = time.monotonic() + self.cell_time
        while True:
            self._begin()
            CUR[0] = self
            if restore:
                self.restore_state()
            try:
                v = thunk(self)
                p = Path(self, 'return', v)
                if not consistent(self):
                    p = None
            except PyExc as e:
                p = Path(self, 'raise', e.inst, e.loc) if consistent(self) else None
            except Infeasible:
                p = None
            except Endless as e:
                p = Path(self, 'raise', e, self.loc) if consistent(self) else None
            except Unsupported as e:
                p = Path(self, 'undecided', None, f'{type(e).__name__}: {e} at {self.loc}')
            except RecursionError:
                p = Path(self, 'undecided', None, 'recursion')
            except Exception as e:  # the analysed code uses a construct in a way the models did not foresee
                p = Path(self, 'undecided', None, f'internal {type(e).__name__}: {e} at {self.loc}')
            if p is not None:
                out.append(p)
            # next path
            del self.choices[self.choice_ix:]
            while self.choices and self.choices[-1][0] + 1 >= self.choices[-1][1]:
                self.choices.pop()
            if not self.choices:
                break
            self.choices[-1][0] += 1
            if len(out) >= max_paths or time.monotonic() > self.deadline:
                out.complete = False
                break
        if restore:
            self.restore_state()
        return out

    # module state: containers reachable from module environments, restored before every path
    def snapshot_state(self):
        snap = []
        seen = set()

        def walk(v, depth=0):
            if isinstance(v, (str, int, float, bool, type(None), Sym)) or id(v) in seen or depth > 12:
                return
            seen.add(id(v))
            if isinstance(v, dict):
                snap.append((v, dict(v)))
                for x in v.values():
                    walk(x, depth + 1)
            elif isinstance(v, (list, set, collections.deque)):
                snap.append((v, v.copy()))
                for x in v:
                    walk(x, depth + 1)
            elif isinstance(v, (ACache, ADispatch)):
                walk(v.store if isinstance(v, ACache) else v.table, depth + 1)
                walk(v.fn, depth + 1)
            elif isinstance(v, (APartial, ABound)):
                walk(v.func, depth + 1)
                walk(v.args if isinstance(v, APartial) else v.self_, depth + 1)
                if isinstance(v, APartial):
                    walk(v.keywords, depth + 1)
            elif type(v) is tuple:
                for x in v:
                    walk(x, depth + 1)
            elif isinstance(v, AModule):
                snap.append((v.env, dict(v.env)))
                for x in v.env.values():
                    walk(x, depth + 1)
            elif isinstance(v, AClass):
                snap.append((v.attrs, dict(v.attrs)))
                for x in v.attrs.values():
                    walk(x, depth + 1)
            elif isinstance(v, AInst):
                snap.append((v.attrs, dict(v.attrs)))
                for x in v.attrs.values():
                    walk(x, depth + 1)
            elif isinstance(v, AFunc):
                snap.append((v.attrs, dict(v.attrs)))
                for x in v.defaults or []:
                    walk(x, depth + 1)
                for x in (v.attrs or {}).values():
                    walk(x, depth + 1)
                f = v.frame
                while f is not None:
                    walk(f.vars, depth + 1)
                    f = f.parent
        for m in self.modules.values():
            walk(m)
        return snap

    def restore_state(self):
        if self._snap is None:
            self._snap = self.snapshot_state()
        for o, c in self._snap:
            if o != c if False else not _same_shallow(o, c):
                if isinstance(o, dict):
                    o.clear()
                    o.update(c)
                elif isinstance(o, list):
                    o[:] = c
                elif isinstance(o, collections.deque):
                    o.clear()
                    o.extend(c)
                else:
                    o.clear()
                    o.update(c)

    def state_changes(self):
        """Module-level containers that differ from their state after import"""
        return [(o, c) for o, c in (self._snap or []) if not _same_shallow(o, c)]

    def fresh(self, name, ty='any'):
        self.fresh_n += 1
        return Sym(f'{name}#{self.fresh_n}', (), ty)

    def effect(self, *e):
        self.effects.append(tuple(e))

    def note(self, msg):
        self.imprecise.append((msg, self.loc))

    # -- modules ---------------------------------------------------------------------------------------
    def module(self, name):
        """Load (analyse the top level of) a module of the package"""
        if name in self.modules:
            return self.modules[name]
        from pathlib import Path as P
        rel = name.replace('.', '/')
        path = P(self.src_root) / (rel + '.py')
        if not path.exists():
            path = P(self.src_root) / rel / '__init__.py'
        if not path.exists():
            raise PyExc(ModuleNotFoundError(f'No module named {name!r}'))
        text = path.read_text(encoding='utf-8')
        tree = ast.parse(text, str(path))
        self.sources[str(path)] = text
        env = {'__name__': name, '__file__': str(path), '__doc__': None, '__package__': name.rpartition('.')[0]}
        mod = AModule(name, str(path), env, text)
        mod.is_pkg = path.name == '__init__.py'
        mod.tree = tree
        self.modules[name] = mod
        info = FuncInfo('module', name)
        fr = Frame(info, mod, None)
        fr.vars = env
        fuel, self.fuel = self.fuel, 10 ** 8
        CUR[0] = self
        for s in tree.body:
            # a definition the analyser does not model leaves its names unknown; what uses them is undecided
            try:
                self.cs(s, info)(fr)
            except (Exception, Unsupported) as e:
                part = FuncInfo('module', name)
                collect_scope(part, [s])
                for n in part.locals | part.globals:
                    if not isinstance(s, (ast.Import, ast.ImportFrom)) or n not in env:
                        env[n] = AUnknown(n, f'{type(e).__name__}: {e}')
                self.unmodelled.append((name, s.lineno, f'{type(e).__name__}: {e}'[:200]))
        self.fuel = fuel
        self._snap = None
        return mod

    def import_module(self, name, level, cur):
        """The module object for an import"""
        if level:
            base = cur.name if getattr(cur, 'is_pkg', False) else cur.name.rpartition('.')[0]
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            name = f'{base}.{name}' if name else base
        top = name.split('.')[0]
        if top == self.package:
            return self.module(name)
        if top == 'schema_markdown':
            return self.schema_module()
        if name in NATIVE_MODULES:
            try:
                return importlib.import_module(name)
            except ImportError as e:
                raise PyExc(e)
        raise Unsupported(f'import {name}')

    # -- names -----------------------------------------------------------------------------------------
    def compile_name_load(self, name, scope):
        if scope.kind == 'module' or name in scope.globals:
            def load_global(fr):
                env = fr.module.env
                if name in env:
                    v = env[name]
                    if type(v) is AUnknown:
                        raise Unsupported(f'{name}: {v.why}')
                    return v
                return self.builtin_name(name)
            return load_global
        if name in scope.locals and scope.kind != 'class':
            def load_local(fr):
                try:
                    return fr.vars[name]
                except KeyError:
                    raise PyExc(UnboundLocalError(f"cannot access local variable '{name}'"), self.loc) from None
            return load_local

        def load_free(fr):
            if scope.kind == 'class' and name in fr.vars:
                return fr.vars[name]
            f = fr.parent
            while f is not None:
                if f.info.kind not in ('module', 'class') and name in f.info.locals:
                    try:
                        return f.vars[name]
                    except KeyError:
                        raise PyExc(NameError(f"cannot access free variable '{name}'"), self.loc) from None
                f = f.parent
            env = fr.module.env
            if name in env:
                v = env[name]
                if type(v) is AUnknown:
                    raise Unsupported(f'{name}: {v.why}')
                return v
            return self.builtin_name(name)
        return load_free

    def compile_name_store(self, name, scope):
        if scope.kind == 'module' or name in scope.globals:
            def store_global(fr, v):
                fr.module.env[name] = v
            return store_global
        if name in scope.nonlocals:
            def store_nonlocal(fr, v):
                f = fr.parent
                while f is not None:
                    if f.info.kind not in ('module', 'class') and name in f.info.locals:
                        f.vars[name] = v
                        return
                    f = f.parent
                raise Unsupported('nonlocal')
            return store_nonlocal
        if scope.kind == 'comp' and name not in scope.locals:
            def store_outer(fr, v):   # walrus in a comprehension
                f = fr.parent
                while f.info.kind == 'comp':
                    f = f.parent
                f.vars[name] = v
            return store_outer

        def store_local(fr, v):
            fr.vars[name] = v
        return store_local

    # -- statements ------------------------------------------------------------------------------------
    def compile_block(self, stmts, scope):
        fns = [self.cs(s, scope) for s in stmts]
        if len(fns) == 1:
            return fns[0]

        def block(fr):
            for f in fns:
                sig = f(fr)
                if sig is not None:
                    return sig
            return None
        return block

    def cs(self, s, scope):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            def unsupported(fr):
                raise Unsupported(f'statement {type(s).__name__} line {s.lineno}')
            return unsupported
        f = m(s, scope)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return f
        line = s.lineno
        cov = self.coverage

        def stmt(fr):
            self.fuel -= 1
            if self.fuel < 0:
                self.refuel()
            loc = (fr.module.path, line)
            self.loc = loc
            cov.add(loc)
            return f(fr)
        return stmt

    def s_Expr(self, s, scope):
        if isinstance(s.value, ast.Constant):
            return lambda fr: None
        e = self.cx(s.value, scope)

        def run(fr):
            e(fr)
        return run

    def s_Pass(self, s, scope):
        return lambda fr: None

    def s_Break(self, s, scope):
        return lambda fr: BRK

    def s_Continue(self, s, scope):
        return lambda fr: CNT

    def s_Return(self, s, scope):
        if s.value is None:
            return lambda fr: Signal('return', None)
        e = self.cx(s.value, scope)
        return lambda fr: Signal('return', e(fr))

    def s_Assign(self, s, scope):
        e = self.cx(s.value, scope)
        ts = [self.ct(t, scope) for t in s.targets]
        if len(ts) == 1:
            t0 = ts[0]

            def assign1(fr):
                t0(fr, e(fr))
            return assign1

        def assign(fr):
            v = e(fr)
            for t in ts:
                t(fr, v)
        return assign

    def s_AnnAssign(self, s, scope):
        if s.value is None:
            if scope.kind == 'class' and isinstance(s.target, ast.Name) and 'ClassVar' not in ast.unparse(s.annotation):
                name = s.target.id

                def ann(fr):
                    fr.vars.setdefault('__fields__', []).append(name)
                return ann
            return lambda fr: None
        e = self.cx(s.value, scope)
        t = self.ct(s.target, scope)
        isfield = scope.kind == 'class' and isinstance(s.target, ast.Name) and 'ClassVar' not in ast.unparse(s.annotation)

        def assign(fr):
            t(fr, e(fr))
            if isfield:
                fr.vars.setdefault('__fields__', []).append(s.target.id)
        return assign

    def s_AugAssign(self, s, scope):
        op = _OPNAME[type(s.op)]
        e = self.cx(s.value, scope)
        if isinstance(s.target, ast.Name):
            ld = self.compile_name_load(s.target.id, scope)
            st = self.compile_name_store(s.target.id, scope)

            def aug(fr):
                cur = ld(fr)
                st(fr, self.aug(op, cur, e(fr)))
            return aug
        if isinstance(s.target, ast.Attribute):
            o = self.cx(s.target.value, scope)
            name = s.target.attr

            def aug_attr(fr):
                obj = o(fr)
                cur = self.getattr(obj, name)
                self.setattr(obj, name, self.aug(op, cur, e(fr)))
            return aug_attr
        o = self.cx(s.target.value, scope)
        k = self.cx(s.target.slice, scope)

        def aug_sub(fr):
            obj = o(fr)
            key = k(fr)
            cur = self.getitem(obj, key)
            self.setitem(obj, key, self.aug(op, cur, e(fr)))
        return aug_sub

    def aug(self, op, cur, v):
        cur = self.norm(cur)
        if isinstance(cur, AInst):
            m = self.inst_method(cur, _IDUNDER.get(op, '__none__'))
            if m is not None:
                return self.call(m, [v], {})
        if op == '+' and isinstance(cur, list):
            self.mutating(cur, '+=')
            cur.extend(self.iterate(v))
            return cur
        if op == '|' and isinstance(cur, set):
            self.mutating(cur, '|=')
            for x in self.iterate(v):
                self.set_add(cur, x)
            return cur
        if op in ('&', '-', '^') and isinstance(cur, set):
            self.mutating(cur, op + '=')
            r = self.set_algebra(op, cur, self.norm(v))
            cur.clear()
            cur.update(r)
            return cur
        if op == '|' and isinstance(cur, dict):
            self.mutating(cur, '|=')
            self.dict_update(cur, v)
            return cur
        return self.binop(op, cur, v)

    def s_If(self, s, scope):
        c = self.cx(s.test, scope)
        a = self.compile_block(s.body, scope)
        b = self.compile_block(s.orelse, scope) if s.orelse else None

        def run(fr):
            if self.truth(c(fr)):
                return a(fr)
            if b is not None:
                return b(fr)
            return None
        return run

    def s_While(self, s, scope):
        c = self.cx(s.test, scope)
        a = self.compile_block(s.body, scope)
        b = self.compile_block(s.orelse, scope) if s.orelse else None

        def run(fr):
            while self.truth(c(fr)):
                self.fuel -= 1
                if self.fuel < 0:
                    self.refuel()
                sig = a(fr)
                if sig is not None:
                    if sig is BRK:
                        return None
                    if sig is CNT:
                        continue
                    return sig
            if b is not None:
                return b(fr)
            return None
        return run

    def s_For(self, s, scope):
        e = self.cx(s.iter, scope)
        t = self.ct(s.target, scope)
        a = self.compile_block(s.body, scope)
        b = self.compile_block(s.orelse, scope) if s.orelse else None

        def run(fr):
            for v in self.iterate(e(fr)):
                t(fr, v)
                sig = a(fr)
                if sig is not None:
                    if sig is BRK:
                        return None
                    if sig is CNT:
                        continue
                    return sig
            if b is not None:
                return b(fr)
            return None
        return run

    def s_Raise(self, s, scope):
        if s.exc is None:
            def reraise(fr):
                f = fr
                if f.exc is None:
                    raise PyExc(RuntimeError('No active exception to reraise'), self.loc)
                raise PyExc(f.exc, self.loc)
            return reraise
        e = self.cx(s.exc, scope)
        c = self.cx(s.cause, scope) if s.cause is not None else None

        def run(fr):
            loc = self.loc
            v = e(fr)
            cause = c(fr) if c is not None else None
            if isinstance(v, AClass) or isinstance(v, type):
                v = self.call(v, [], {})
            if c is not None:
                if isinstance(cause, (AClass, type)):
                    cause = self.call(cause, [], {})
                if isinstance(v, AInst):
                    v.attrs['__cause__'] = cause
                elif isinstance(v, BaseException):
                    self.causes[v] = cause
            self.loc = loc
            raise PyExc(v, loc)
        return run

    def exc_matches(self, inst, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(inst, c) for c in cls)
        if isinstance(inst, AInst):
            mro = inst.cls.mro if isinstance(inst.cls, AClass) else inst.cls.__mro__
            return cls in mro
        if isinstance(inst, Sym):
            if cls in (Exception, BaseException):
                return True
            raise Unsupported('matching an opaque exception')
        return isinstance(cls, type) and isinstance(inst, cls)

    def s_Try(self, s, scope):
        body = self.compile_block(s.body, scope)
        orelse = self.compile_block(s.orelse, scope) if s.orelse else None
        final = self.compile_block(s.finalbody, scope) if s.finalbody else None
        handlers = []
        for h in s.handlers:
            handlers.append((self.cx(h.type, scope) if h.type is not None else None,
                             self.compile_name_store(h.name, scope) if h.name else None,
                             self.compile_block(h.body, scope), h.name))

        def guarded(fr):
            try:
                sig = body(fr)
            except PyExc as e:
                depth = self.depth
                for ty, st, blk, name in handlers:
                    if ty is None or self.exc_matches(e.inst, ty(fr)):
                        if st is not None:
                            st(fr, e.inst)
                        saved = fr.exc
                        fr.exc = e.inst
                        try:
                            return blk(fr)
                        finally:
                            fr.exc = saved
                            if name and name in fr.vars:
                                fr.vars.pop(name, None)
                raise
            if sig is None and orelse is not None:
                return orelse(fr)
            return sig
        if final is None:
            return guarded

        def run(fr):
            try:
                sig = guarded(fr)
            except PyExc:
                fs = final(fr)
                if fs is not None:
                    return fs
                raise
            fs = final(fr)
            return fs if fs is not None else sig
        return run

    def s_With(self, s, scope):
        items = [(self.cx(i.context_expr, scope), self.ct(i.optional_vars, scope) if i.optional_vars else None) for i in s.items]
        body = self.compile_block(s.body, scope)

        def run(fr, ix=0):
            if ix == len(items):
                return body(fr)
            e, t = items[ix]
            cm = e(fr)
            enter, exit_ = self.cm_methods(cm)
            v = enter()
            if t is not None:
                t(fr, v)
            try:
                sig = run(fr, ix + 1)
            except PyExc as ex:
                if self.truth(exit_(ex.inst)):
                    return None
                raise
            exit_(None)
            return sig
        return run

    def s_Assert(self, s, scope):
        c = self.cx(s.test, scope)

        def run(fr):
            if not self.truth(c(fr)):
                raise PyExc(AssertionError(), self.loc)
        return run

    def s_Delete(self, s, scope):
        fns = []
        for t in s.targets:
            if isinstance(t, ast.Name):
                def d(fr, name=t.id, sc=scope):
                    env = fr.module.env if (sc.kind == 'module' or name in sc.globals) else fr.vars
                    if name not in env:
                        raise PyExc(NameError(name), self.loc)
                    del env[name]
            elif isinstance(t, ast.Subscript):
                def d(fr, o=self.cx(t.value, scope), k=self.cx(t.slice, scope)):
                    self.delitem(o(fr), k(fr))
            else:
                def d(fr, o=self.cx(t.value, scope), a=t.attr):
                    obj = o(fr)
                    if isinstance(obj, AInst) and a in obj.attrs:
                        del obj.attrs[a]
                    else:
                        raise Unsupported('del attribute')
            fns.append(d)

        def run(fr):
            for f in fns:
                f(fr)
        return run

    def s_Global(self, s, scope):
        return lambda fr: None
    s_Nonlocal = s_Global

    def s_Import(self, s, scope):
        sts = [(a, self.compile_name_store(a.asname or a.name.split('.')[0], scope)) for a in s.names]

        def run(fr):
            for a, st in sts:
                m = self.import_module(a.name, 0, fr.module)
                if a.asname is None and '.' in a.name:
                    m = self.import_module(a.name.split('.')[0], 0, fr.module)
                st(fr, m)
        return run

    def s_ImportFrom(self, s, scope):
        sts = [(a, self.compile_name_store(a.asname or a.name, scope)) for a in s.names]

        def run(fr):
            mod = self.import_module(s.module or '', s.level, fr.module)
            for a, st in sts:
                if a.name == '*':
                    env = mod.env if isinstance(mod, AModule) else vars(mod)
                    for k, v in list(env.items()):
                        if not k.startswith('_'):
                            fr.vars[k] = v
                    continue
                if isinstance(mod, AModule):
                    if a.name in mod.env:
                        v = mod.env[a.name]
                    else:
                        try:
                            v = self.module(f'{mod.name}.{a.name}')
                        except PyExc:
                            raise PyExc(ImportError(f'cannot import name {a.name!r} from {mod.name!r}'), self.loc) from None
                else:
                    try:
                        v = getattr(mod, a.name)
                    except AttributeError:
                        v = self.import_module(f'{mod.__name__}.{a.name}', 0, fr.module)
                st(fr, v)
        return run

    def s_FunctionDef(self, s, scope):
        mk = self.compile_function(s, scope, s.name)
        st = self.compile_name_store(s.name, scope)
        decs = [self.cx(d, scope) for d in s.decorator_list]

        def run(fr):
            ds = [d(fr) for d in decs]
            v = mk(fr)
            for d in reversed(ds):
                v = self.decorate(d, v)
            st(fr, v)
        return run

    def decorate(self, d, v):
        if d is property:
            return AProp(v)
        if d is staticmethod or d is classmethod:
            return AStatic(v, d.__name__)
        if isinstance(d, tuple) and d and d[0] == 'prop-setter':
            return AProp(d[1].fget, v)
        return self.call(d, [v], {})

    def s_TypeAlias(self, s, scope):
        st = self.compile_name_store(s.name.id, scope)
        return lambda fr: st(fr, AUnknown(s.name.id, 'type alias'))

    def s_AsyncFunctionDef(self, s, scope):
        def run(fr):
            raise Unsupported('async function')
        return run

    def compile_function(self, node, scope, name):
        info = FuncInfo('func', name)
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        info.locals.update(params, kwonly)
        if a.vararg:
            info.locals.add(a.vararg.arg)
        if a.kwarg:
            info.locals.add(a.kwarg.arg)
        if isinstance(node, ast.Lambda):
            collect_scope(info, [node.body])
            body = [None]

            def getbody():
                if body[0] is None:
                    e = self.cx(node.body, info)
                    body[0] = lambda fr: Signal('return', e(fr))
                return body[0]
        else:
            collect_scope(info, node.body)
            body = [None]

            def getbody():
                if body[0] is None:
                    if info.is_gen:
                        body[0] = self.gen_block(node.body, info)
                    else:
                        body[0] = self.compile_block(node.body, info)
                return body[0]
        info.body = getbody
        info.args = (params, kwonly, a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None, len(a.posonlyargs))
        defaults = [self.cx(d, scope) for d in a.defaults]
        kwdefaults = [self.cx(d, scope) if d is not None else None for d in a.kw_defaults]

        def make(fr):
            parent = fr if scope.kind not in ('module',) else None
            return AFunc(node, fr.module, parent, name, info, [d(fr) for d in defaults],
                         {k: d(fr) for k, d in zip(kwonly, kwdefaults) if d is not None})
        return make

    def s_ClassDef(self, s, scope):
        info = FuncInfo('class', s.name)
        collect_scope(info, s.body)
        body = self.compile_block(s.body, info)
        bases = [self.cx(b, scope) for b in s.bases]
        st = self.compile_name_store(s.name, scope)
        decs = [self.cx(d, scope) for d in s.decorator_list]
        keys = [self.cx(k.value, scope) for k in s.keywords]

        def run(fr):
            bs = [b for b in (self.class_base(b(fr)) for b in bases) if b is not None]
            kws = [k(fr) for k in keys]
            cf = Frame(info, fr.module, fr if scope.kind != 'module' else None)
            body(cf)
            for b in bs:
                if not isinstance(b, (AClass, type)):
                    if b is None or isinstance(b, Sym):
                        raise Unsupported('class base')
            if any(isinstance(b, type) and b.__name__ in ('NamedTuple', 'Enum', 'IntEnum', 'StrEnum', 'Flag', 'TypedDict', 'Protocol') or
                   getattr(b, '__name__', '') in ('NamedTuple', 'TypedDict') for b in bs):
                cls = self.special_class(s.name, bs, cf.vars, fr.module)
            else:
                cls = AClass(s.name, bs, cf.vars, fr.module)
                for v in cf.vars.values():
                    for f in ([v] if isinstance(v, AFunc) else [v.fget, v.fset] if isinstance(v, AProp) else [v.fn] if isinstance(v, AStatic) else []):
                        if isinstance(f, AFunc):
                            f.owner = cls
                if any(k.arg == 'metaclass' and getattr(m, '__name__', '') != 'ABCMeta' for k, m in zip(s.keywords, kws)):
                    raise Unsupported('metaclass')
                kw = {k.arg: m for k, m in zip(s.keywords, kws) if k.arg != 'metaclass'}
                for b in cls.mro[1:]:
                    if isinstance(b, AClass) and '__init_subclass__' in b.attrs:
                        h = b.attrs['__init_subclass__']
                        self.call(h.fn if isinstance(h, AStatic) else h, [cls], kw)
                        break
                for k2, d2 in list(cf.vars.items()):
                    if isinstance(d2, AInst) and self.inst_method(d2, '__set_name__') is not None:
                        self.call(self.inst_method(d2, '__set_name__'), [cls, k2], {})
                    if isinstance(d2, AInst) and self.inst_method(d2, '__get__') is not None:
                        raise Unsupported('descriptor object')
                for mname in ('__setattr__', '__getattribute__', '__delattr__', '__instancecheck__', '__class_getitem__'):
                    if mname in cf.vars and mname != '__class_getitem__':
                        raise Unsupported(mname)
            v = cls
            for d in reversed([d(fr) for d in decs]):
                v = self.decorate_class(d, v)
            st(fr, v)
        return run

    @staticmethod
    def class_base(b):
        """A base class as the analyser sees it: markers of typing and abc carry no behaviour"""
        origin = getattr(b, '__origin__', None)
        if origin is not None and getattr(origin, '__name__', '') in ('Generic', 'Protocol'):
            return None
        if isinstance(b, AUnknown):
            raise Unsupported(b.why)
        if isinstance(b, type) and (b.__name__, b.__module__) in (('ABC', 'abc'), ('Generic', 'typing')):
            return None
        if origin is not None and isinstance(origin, type):
            return origin
        return b

    def s_Match(self, s, scope):
        subj = self.cx(s.subject, scope)
        cases = [(self.pattern(c.pattern, scope), self.cx(c.guard, scope) if c.guard else None, self.compile_block(c.body, scope)) for c in s.cases]

        def run(fr):
            v = subj(fr)
            for p, g, b in cases:
                binds = {}
                if p(fr, v, binds):
                    for st, x in binds.values():
                        st(fr, x)
                    if g is None or self.truth(g(fr)):
                        return b(fr)
            return None
        return run

    def pattern(self, p, scope):
        if isinstance(p, ast.MatchValue):
            e = self.cx(p.value, scope)
            return lambda fr, v, b: self.truth(self.eq(v, e(fr)))
        if isinstance(p, ast.MatchSingleton):
            return lambda fr, v, b: self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            sub = self.pattern(p.pattern, scope) if p.pattern else None
            st = self.compile_name_store(p.name, scope) if p.name else None

            def match_as(fr, v, b):
                if sub is not None and not sub(fr, v, b):
                    return False
                if st is not None:
                    b[p.name] = (st, v)
                return True
            return match_as
        if isinstance(p, ast.MatchOr):
            subs = [self.pattern(x, scope) for x in p.patterns]
            return lambda fr, v, b: any(x(fr, v, b) for x in subs)
        if isinstance(p, ast.MatchSequence):
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if star:
                i = star[0]
                pre = [self.pattern(x, scope) for x in p.patterns[:i]]
                post = [self.pattern(x, scope) for x in p.patterns[i + 1:]]
                nm = p.patterns[i].name
                st = self.compile_name_store(nm, scope) if nm else None

                def match_star(fr, v, b):
                    v = self.norm(v)
                    if not isinstance(v, (list, tuple)) or len(v) < len(pre) + len(post):
                        return False
                    mid = list(v[len(pre):len(v) - len(post)])
                    if all(x(fr, y, b) for x, y in zip(pre, v)) and all(x(fr, y, b) for x, y in zip(post, v[len(v) - len(post):])):
                        if st:
                            b[nm] = (st, mid)
                        return True
                    return False
                return match_star
            subs = [self.pattern(x, scope) for x in p.patterns]

            def match_seq(fr, v, b):
                v = self.norm(v)
                if isinstance(v, Sym) and self.ty(v) in ('list', 'tuple'):
                    raise Unsupported('match on opaque sequence')
                return isinstance(v, (list, tuple)) and len(v) == len(subs) and all(x(fr, y, b) for x, y in zip(subs, v))
            return match_seq
        if isinstance(p, ast.MatchMapping):
            keys = [self.cx(k, scope) for k in p.keys]
            subs = [self.pattern(x, scope) for x in p.patterns]
            st = self.compile_name_store(p.rest, scope) if p.rest else None

            def match_map(fr, v, b):
                v = self.norm(v)
                if isinstance(v, Sym) and self.ty(v) == 'dict':
                    raise Unsupported('match on opaque mapping')
                if not isinstance(v, dict):
                    return False
                used = []
                for k, sp in zip(keys, subs):
                    hit = self.dict_find(v, k(fr))
                    if hit is None or not sp(fr, v[hit[0]], b):
                        return False
                    used.append(hit[0])
                if st:
                    b[p.rest] = (st, {k: x for k, x in v.items() if k not in used})
                return True
            return match_map
        if isinstance(p, ast.MatchClass):
            c = self.cx(p.cls, scope)
            subs = [self.pattern(x, scope) for x in p.patterns]
            kws = [(a, self.pattern(x, scope)) for a, x in zip(p.kwd_attrs, p.kwd_patterns)]

            def match_cls(fr, v, b):
                cls = c(fr)
                if not self.is_instance(v, cls):
                    return False
                if subs:
                    if cls in (int, float, str, bool, list, dict, tuple, bytes, set) and len(subs) == 1:
                        if not subs[0](fr, v, b):
                            return False
                    elif isinstance(cls, AClass) and cls.fields is not None:
                        if not all(x(fr, self.getattr(v, f), b) for x, f in zip(subs, cls.fields)):
                            return False
                    else:
                        raise Unsupported('class pattern')
                for a, x in kws:
                    if not x(fr, self.getattr(v, a), b):
                        return False
                return True
            return match_cls
        raise Unsupported(f'pattern {type(p).__name__}')

    # -- generator functions ---------------------------------------------------------------------------
    def gen_block(self, stmts, scope):
        fns = [self.gs(s, scope) for s in stmts]

        def block(fr):
            for f in fns:
                sig = yield from f(fr)
                if sig is not None:
                    return sig
            return None
        return block

    def gs(self, s, scope):
        def has_yield(n):
            for x in ast.walk(n):
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    return True
            return False
        if not has_yield(s):
            f = self.cs(s, scope)

            def plain(fr):
                return f(fr)
                yield
            return plain
        line = s.lineno

        def tick(fr):
            self.fuel -= 1
            if self.fuel < 0:
                self.refuel()
            self.loc = (fr.module.path, line)
            self.coverage.add(self.loc)
        if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            y = s.value
            e = self.cx(y.value, scope) if y.value is not None else (lambda fr: None)
            ts = [self.ct(t, scope) for t in s.targets] if isinstance(s, ast.Assign) else []
            frm = isinstance(y, ast.YieldFrom)

            def yld(fr):
                tick(fr)
                v = e(fr)
                r = None
                if frm:
                    r = yield from self.iterate(v)
                else:
                    r = yield v
                for t in ts:
                    t(fr, r)
                return None
            return yld
        if isinstance(s, ast.If):
            c = self.cx(s.test, scope)
            a = self.gen_block(s.body, scope)
            b = self.gen_block(s.orelse, scope)

            def gif(fr):
                tick(fr)
                return (yield from (a if self.truth(c(fr)) else b)(fr))
            return gif
        if isinstance(s, ast.While):
            c = self.cx(s.test, scope)
            a = self.gen_block(s.body, scope)
            orelse = self.gen_block(s.orelse, scope)

            def gwhile(fr):
                tick(fr)
                while self.truth(c(fr)):
                    tick(fr)
                    sig = yield from a(fr)
                    if sig is BRK:
                        return None
                    if sig is not None and sig is not CNT:
                        return sig
                return (yield from orelse(fr))
            return gwhile
        if isinstance(s, ast.For):
            e = self.cx(s.iter, scope)
            t = self.ct(s.target, scope)
            a = self.gen_block(s.body, scope)
            orelse = self.gen_block(s.orelse, scope)

            def gfor(fr):
                tick(fr)
                for v in self.iterate(e(fr)):
                    t(fr, v)
                    sig = yield from a(fr)
                    if sig is BRK:
                        return None
                    if sig is not None and sig is not CNT:
                        return sig
                return (yield from orelse(fr))
            return gfor
        if isinstance(s, ast.Return) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            y = s.value
            e = self.cx(y.value, scope) if y.value is not None else (lambda fr: None)
            frm = isinstance(y, ast.YieldFrom)

            def gret(fr):
                tick(fr)
                v = e(fr)
                if frm:
                    return Signal('return', (yield from self.iterate(v)))
                return Signal('return', (yield v))
            return gret
        if isinstance(s, ast.With):
            items = [(self.cx(i.context_expr, scope), self.ct(i.optional_vars, scope) if i.optional_vars else None) for i in s.items]
            wbody = self.gen_block(s.body, scope)

            def gwith(fr, ix=0):
                if ix == len(items):
                    return (yield from wbody(fr))
                tick(fr)
                enter, exit_ = self.cm_methods(items[ix][0](fr))
                v = enter()
                if items[ix][1] is not None:
                    items[ix][1](fr, v)
                try:
                    sig = yield from gwith(fr, ix + 1)
                except PyExc as ex:
                    if self.truth(exit_(ex.inst)):
                        return None
                    raise
                exit_(None)
                return sig
            return gwith
        if isinstance(s, ast.Try) and s.finalbody:
            plain_try = ast.copy_location(ast.Try(s.body, s.handlers, s.orelse, []), s)
            inner = self.gs(plain_try, scope) if s.handlers else self.gen_block(s.body, scope)
            final = self.gen_block(s.finalbody, scope)

            def gfinal(fr):
                try:
                    sig = yield from inner(fr)
                except PyExc:
                    fs = yield from final(fr)
                    if fs is not None:
                        return fs
                    raise
                except GeneratorExit:
                    for _ in final(fr):
                        raise Unsupported('yield while closing')
                    raise
                fs = yield from final(fr)
                return fs if fs is not None else sig
            return gfinal
        if isinstance(s, ast.Try):
            body = self.gen_block(s.body, scope)
            hs = [(self.cx(h.type, scope) if h.type is not None else None,
                   self.compile_name_store(h.name, scope) if h.name else None, self.gen_block(h.body, scope), h.name) for h in s.handlers]
            orelse = self.gen_block(s.orelse, scope)

            def gtry(fr):
                tick(fr)
                try:
                    sig = yield from body(fr)
                except PyExc as ex:
                    for ty, st, blk, name in hs:
                        if ty is None or self.exc_matches(ex.inst, ty(fr)):
                            if st:
                                st(fr, ex.inst)
                            saved, fr.exc = fr.exc, ex.inst
                            try:
                                return (yield from blk(fr))
                            finally:
                                fr.exc = saved
                                if name:
                                    fr.vars.pop(name, None)
                    raise
                if sig is None:
                    return (yield from orelse(fr))
                return sig
            return gtry

        def gbad(fr):
            raise Unsupported(f'yield in {type(s).__name__}')
            yield
        return gbad

    # -- assignment targets ----------------------------------------------------------------------------
    def ct(self, t, scope):
        if isinstance(t, ast.Name):
            return self.compile_name_store(t.id, scope)
        if isinstance(t, (ast.Tuple, ast.List)):
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            subs = [self.ct(x.value if isinstance(x, ast.Starred) else x, scope) for x in t.elts]
            n = len(subs)

            def unpack(fr, v):
                v = self.norm(v)
                if isinstance(v, Sym) and self.ty(v) in ('list', 'tuple'):
                    raise Unsupported('unpacking an opaque sequence')
                vs = list(self.iterate(v))
                if star is None:
                    if len(vs) != n:
                        raise PyExc(ValueError(f'not enough/too many values to unpack (expected {n}, got {len(vs)})'), self.loc)
                    for s, x in zip(subs, vs):
                        s(fr, x)
                else:
                    if len(vs) < n - 1:
                        raise PyExc(ValueError('not enough values to unpack'), self.loc)
                    after = n - 1 - star
                    for i in range(star):
                        subs[i](fr, vs[i])
                    subs[star](fr, vs[star:len(vs) - after])
                    for i in range(after):
                        subs[star + 1 + i](fr, vs[len(vs) - after + i])
            return unpack
        if isinstance(t, ast.Attribute):
            o = self.cx(t.value, scope)
            return lambda fr, v: self.setattr(o(fr), t.attr, v)
        if isinstance(t, ast.Subscript):
            o = self.cx(t.value, scope)
            k = self.cx(t.slice, scope)
            return lambda fr, v: self.setitem(o(fr), k(fr), v)
        raise Unsupported(f'target {type(t).__name__}')

    # -- expressions -----------------------------------------------------------------------------------
    def cx(self, e, scope):
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is None:
            def unsupported(fr):
                raise Unsupported(f'expression {type(e).__name__} line {e.lineno}')
            return unsupported
        return m(e, scope)

    def x_Constant(self, e, scope):
        v = e.value
        return lambda fr: v

    def x_Name(self, e, scope):
        return self.compile_name_load(e.id, scope)

    def x_NamedExpr(self, e, scope):
        v = self.cx(e.value, scope)
        st = self.compile_name_store(e.target.id, scope)

        def run(fr):
            x = v(fr)
            st(fr, x)
            return x
        return run

    def _elts(self, elts, scope):
        fns = [(self.cx(x.value, scope), True) if isinstance(x, ast.Starred) else (self.cx(x, scope), False) for x in elts]

        def run(fr):
            out = []
            for f, star in fns:
                if star:
                    out.extend(self.iterate(f(fr)))
                else:
                    out.append(f(fr))
            return out
        return run

    def x_List(self, e, scope):
        return self._elts(e.elts, scope)

    def x_Tuple(self, e, scope):
        f = self._elts(e.elts, scope)
        return lambda fr: tuple(f(fr))

    def x_Set(self, e, scope):
        f = self._elts(e.elts, scope)
        return lambda fr: self.make_set(f(fr))

    def x_Dict(self, e, scope):
        items = [(self.cx(k, scope) if k is not None else None, self.cx(v, scope)) for k, v in zip(e.keys, e.values)]

        def run(fr):
            d = {}
            for k, v in items:
                if k is None:
                    self.dict_update(d, v(fr))
                else:
                    key = k(fr)
                    self.dict_set(d, key, v(fr))
            return d
        return run

    def x_BinOp(self, e, scope):
        op = _OPNAME[type(e.op)]
        a, b = self.cx(e.left, scope), self.cx(e.right, scope)
        return lambda fr: self.binop(op, a(fr), b(fr))

    def x_UnaryOp(self, e, scope):
        op = {ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        a = self.cx(e.operand, scope)
        return lambda fr: self.unary(op, a(fr))

    def x_BoolOp(self, e, scope):
        fns = [self.cx(v, scope) for v in e.values]
        is_and = isinstance(e.op, ast.And)
        last = fns[-1]
        init = fns[:-1]

        def run(fr):
            for f in init:
                v = f(fr)
                if self.truth(v) != is_and:
                    return v
            return last(fr)
        return run

    def x_Compare(self, e, scope):
        a = self.cx(e.left, scope)
        ops = [(type(o), self.cx(c, scope)) for o, c in zip(e.ops, e.comparators)]
        if len(ops) == 1:
            o, c = ops[0]
            return lambda fr: self.cmpop(o, a(fr), c(fr))

        def run(fr):
            x = a(fr)
            r = True
            for o, c in ops:
                y = c(fr)
                r = self.cmpop(o, x, y)
                if not self.truth(r):
                    return r
                x = y
            return r
        return run

    def cmpop(self, o, a, b):
        if o is ast.Is:
            return self.is_(a, b)
        if o is ast.IsNot:
            return not self.is_(a, b)
        if o is ast.In:
            return self.contains(b, a)
        if o is ast.NotIn:
            r = self.contains(b, a)
            return self.unary('not', r)
        return self.compare(_CMPNAME[o], a, b)

    def is_(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym):
                if y is None:
                    ts = self.types_of(x)
                    if 'none' not in ts:
                        return False
                    return self._has_type(x, frozenset(('none',)))
                if y is True or y is False:
                    if 'bool' not in self.types_of(x):
                        return False
                    if self.types_of(x) != {'bool'}:
                        if not self._has_type(x, frozenset(('bool',))):
                            return False
                    return self.truth(x) == y
        if isinstance(a, Sym) or isinstance(b, Sym):
            # identity of opaque values
            if not self.types_of(a) & self.types_of(b):
                return False
            if isinstance(a, Sym) and isinstance(b, Sym):
                if self.eq_known_false(a, b):
                    return False
                same = self.decide_bool(Sym('is', (a, b), 'bool'))
                if same and self.types_of(a) == self.types_of(b) and self.types_of(a) <= {'int', 'str', 'float'}:
                    self.assume('==', a, b)
                return same
            s, c = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(c, (list, dict, ACallable, AInst)):
                return False
            same = self.decide_bool(Sym('is', (s, c if isinstance(c, (str, int, float)) else id(c)), 'bool'))
            if same and self.types_of(s) <= {'int', 'str', 'float'} and isinstance(c, (int, str, float)):
                self.assume('==', s, c)
            return same
        if type(a) is type(b) and isinstance(a, (int, float, str)) and not isinstance(a, bool):
            # identity of constants is an implementation detail
            if a != b:
                return False
            if isinstance(a, int) and -5 <= a <= 256 or isinstance(a, str) and len(a) <= 1:
                return True
            return self.decide_bool(Sym('is', (str(a), str(b)), 'bool'))
        return False

    def eq_known_false(self, a, b):
        try:
            return self.known('==', a, b) is False
        except (TypeError, Unsupported):
            return False

    def x_IfExp(self, e, scope):
        c, a, b = self.cx(e.test, scope), self.cx(e.body, scope), self.cx(e.orelse, scope)
        return lambda fr: a(fr) if self.truth(c(fr)) else b(fr)

    def x_Attribute(self, e, scope):
        o = self.cx(e.value, scope)
        name = e.attr
        return lambda fr: self.getattr(o(fr), name)

    def x_Subscript(self, e, scope):
        o = self.cx(e.value, scope)
        k = self.cx(e.slice, scope)
        return lambda fr: self.getitem(o(fr), k(fr))

    def x_Slice(self, e, scope):
        p = [self.cx(x, scope) if x is not None else None for x in (e.lower, e.upper, e.step)]
        return lambda fr: slice(*[x(fr) if x is not None else None for x in p])

    def x_Starred(self, e, scope):
        raise Unsupported('starred')

    def x_Lambda(self, e, scope):
        return self.compile_function(e, scope, '<lambda>')

    def x_JoinedStr(self, e, scope):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append((None, v.value, None, None))
            else:
                parts.append((self.cx(v.value, scope), None, v.conversion, self.cx(v.format_spec, scope) if v.format_spec else None))

        def run(fr):
            out = []
            for f, c, conv, spec in parts:
                if f is None:
                    out.append(c)
                else:
                    v = f(fr)
                    if conv == 114:
                        v = self.repr_of(v)
                    elif conv in (115, 97):
                        v = self.str_of(v)
                    out.append(self.format_of(v, spec(fr) if spec is not None else ''))
            return self.concat(*out)
        return run

    def x_FormattedValue(self, e, scope):
        f = self.cx(e.value, scope)
        return lambda fr: self.format_of(f(fr), '')

    def x_Yield(self, e, scope):
        raise Unsupported('yield expression')
    x_YieldFrom = x_Await = x_Yield

    def _comp(self, gens, scope):
        info = FuncInfo('comp', '<comp>')
        for g in gens:
            collect_scope(info, [g.target])
        first = self.cx(gens[0].iter, scope)
        inner = []
        for i, g in enumerate(gens):
            inner.append((self.cx(g.iter, info) if i else None, self.ct(g.target, info), [self.cx(c, info) for c in g.ifs]))

        def loop(fr0, emit):
            src = first(fr0)
            fr = Frame(info, fr0.module, fr0 if fr0.info.kind != 'module' else None)
            fr.func = fr0.func
            fr.self_ = fr0.self_

            def level(i):
                it, tgt, ifs = inner[i]
                for v in self.iterate(src if i == 0 else it(fr)):
                    self.fuel -= 1
                    if self.fuel < 0:
                        self.refuel()
                    tgt(fr, v)
                    if all(self.truth(c(fr)) for c in ifs):
                        if i + 1 < len(inner):
                            yield from level(i + 1)
                        else:
                            yield emit(fr)
            return level(0)
        return info, loop

    def x_ListComp(self, e, scope):
        info, loop = self._comp(e.generators, scope)
        elt = self.cx(e.elt, info)
        return lambda fr: list(loop(fr, elt))

    def x_GeneratorExp(self, e, scope):
        info, loop = self._comp(e.generators, scope)
        elt = self.cx(e.elt, info)
        return lambda fr: loop(fr, elt)

    def x_SetComp(self, e, scope):
        info, loop = self._comp(e.generators, scope)
        elt = self.cx(e.elt, info)
        return lambda fr: self.make_set(loop(fr, elt))

    def x_DictComp(self, e, scope):
        info, loop = self._comp(e.generators, scope)
        k, v = self.cx(e.key, info), self.cx(e.value, info)

        def run(fr):
            d = {}
            for key, val in loop(fr, lambda f: (k(f), v(f))):
                self.dict_set(d, key, val)
            return d
        return run

    def x_Call(self, e, scope):
        args = [(self.cx(a.value, scope), True) if isinstance(a, ast.Starred) else (self.cx(a, scope), False) for a in e.args]
        kws = [(k.arg, self.cx(k.value, scope)) for k in e.keywords]
        simple = not any(s for _, s in args) and not kws
        argfns = [a for a, _ in args]
        line = e.lineno

        def eval_args(fr):
            if simple:
                return [a(fr) for a in argfns], {}
            pos = []
            for a, star in args:
                if star:
                    pos.extend(self.iterate(a(fr)))
                else:
                    pos.append(a(fr))
            kw = {}
            for name, f in kws:
                if name is None:
                    for k, v in self.dict_items(f(fr)):
                        kw[k] = v
                else:
                    kw[name] = f(fr)
            return pos, kw
        f = e.func
        if isinstance(f, ast.Attribute):
            o = self.cx(f.value, scope)
            name = f.attr

            def call_method(fr):
                obj = o(fr)
                pos, kw = eval_args(fr)
                self.loc = (fr.module.path, line)
                return self.call_method(obj, name, pos, kw, fr)
            return call_method
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            def mk_super(fr):
                g = fr
                while g.func is None or g.func.owner is None:
                    g = g.parent
                    if g is None:
                        raise Unsupported('super')
                return ASuper(g.func.owner, g.self_)
            return mk_super
        if isinstance(f, ast.Name) and f.id in ('locals', 'globals', 'vars', 'eval', 'exec') and f.id not in scope.locals:
            fid = f.id

            def special(fr):
                pos, kw = eval_args(fr)
                if fid == 'locals' or fid == 'vars' and not pos:
                    return dict(fr.vars)
                if fid == 'globals':
                    return fr.module.env
                if fid == 'vars':
                    if isinstance(pos[0], AInst):
                        return pos[0].attrs
                raise Unsupported(fid)
            return special
        fn = self.cx(f, scope)

        def call(fr):
            g = fn(fr)
            pos, kw = eval_args(fr)
            self.loc = (fr.module.path, line)
            return self.call(g, pos, kw)
        return call

    # -- calls -----------------------------------------------------------------------------------------
    def call(self, f, args, kw):
        if isinstance(f, AFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, ABound):
            return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, APartial):
            k = dict(f.keywords)
            k.update(kw)
            return self.call(f.func, list(f.args) + args, k)
        if isinstance(f, HostFn):
            return f.fn(self, args, kw)
        return self.call_other(f, args, kw)

    def bind(self, f, args, kw):
        params, kwonly, vararg, kwarg, nposonly = f.info.args
        v = {}
        n = len(params)
        if len(args) > n and vararg is None:
            raise PyExc(TypeError(f'{f.name}() takes {n} positional arguments but {len(args)} were given'), self.loc)
        for p, a in zip(params, args):
            v[p] = a
        if vararg is not None:
            v[vararg] = tuple(args[n:])
        extra = {}
        for k, a in kw.items():
            if k in params and params.index(k) >= nposonly or k in kwonly:
                if k in v:
                    raise PyExc(TypeError(f"{f.name}() got multiple values for argument '{k}'"), self.loc)
                v[k] = a
            elif kwarg is not None:
                extra[k] = a
            else:
                raise PyExc(TypeError(f"{f.name}() got an unexpected keyword argument '{k}'"), self.loc)
        if kwarg is not None:
            v[kwarg] = extra
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in v:
                j = i - (n - nd)
                if j >= 0:
                    v[p] = f.defaults[j]
                else:
                    raise PyExc(TypeError(f"{f.name}() missing required positional argument: '{p}'"), self.loc)
        for p in kwonly:
            if p not in v:
                if p in f.kw_defaults:
                    v[p] = f.kw_defaults[p]
                else:
                    raise PyExc(TypeError(f"{f.name}() missing keyword argument: '{p}'"), self.loc)
        return v

    def call_func(self, f, args, kw):
        ov = self.overrides.get((f.module.name, f.name))
        if ov is not None:
            return ov.fn(self, args, kw)
        fr = Frame(f.info, f.module, f.frame, f)
        fr.vars = self.bind(f, args, kw)
        if f.owner is not None:
            if args:
                fr.self_ = args[0]
            elif f.info.args[0]:
                fr.self_ = fr.vars.get(f.info.args[0][0])
        self.fuel -= 1
        if self.fuel < 0:
            self.refuel()
        self.functions_seen.add((f.module.path, f.node.lineno, f.name))
        if self.log_calls:
            self.calllog.append((f.name, args))
        body = f.info.body()
        if f.info.is_gen:
            return _gen_values(body(fr))
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise PyExc(RecursionError('maximum recursion depth exceeded'), self.loc)
        loc = self.loc
        try:
            sig = body(fr)
        finally:
            self.depth -= 1
        self.loc = loc
        if sig is None:
            return None
        return sig.value

    def instantiate(self, cls, args, kw):
        new, _ = cls.lookup('__new__')
        if isinstance(new, (AFunc, AStatic)):
            raise Unsupported('__new__')
        inst = AInst(cls)
        nat = next((c for c in cls.mro if isinstance(c, type) and c is not object), None)
        if nat is not None and issubclass(nat, BaseException):
            inst.attrs['args'] = tuple(args)
        elif nat is not None and nat in (dict, list, str, int, float, tuple, set):
            raise Unsupported(f'subclass of {nat.__name__}')
        elif nat is not None and nat.__name__ in ('JSONEncoder',):
            inst.attrs['__cfg__'] = dict(kw)
        init, owner = cls.lookup('__init__')
        if isinstance(init, AFunc):
            self.call(init, [inst] + args, kw)
        elif cls.fields is not None:
            self.init_fields(cls, inst, args, kw)
        elif nat is None and (args or kw):
            raise PyExc(TypeError(f'{cls.name}() takes no arguments'), self.loc)
        return inst

    def inst_method(self, inst, name):
        if not isinstance(inst.cls, AClass):
            return None
        v, owner = inst.cls.lookup(name)
        if isinstance(v, AFunc):
            return ABound(v, inst)
        return None


class PathList(list):
    complete = True


def _gen_values(g):
    """The values of a generator body; its return value is that of the generator"""
    sig = yield from g
    return sig.value if sig is not None else None


def _same_shallow(o, c):
    if len(o) != len(c):
        return False
    if isinstance(o, dict):
        for (k1, v1), (k2, v2) in zip(o.items(), c.items()):
            if k1 is not k2 and k1 != k2 or v1 is not v2:
                return False
        return True
    if isinstance(o, list):
        return all(x is y for x, y in zip(o, c))
    return o == c


_OPNAME = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
_IDUNDER = {'+': '__iadd__', '-': '__isub__', '*': '__imul__', '/': '__itruediv__', '//': '__ifloordiv__', '%': '__imod__',
            '|': '__ior__', '&': '__iand__', '^': '__ixor__'}
_CMPNAME = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
