"""Behaviour-preserving rewrites of whole functions (see refactors.py)."""
from refactors import refactor

refactor('w-lint-class', ('model.py', ('lint_script', '_is_pointless_expression', '_get_variable_assignments_and_uses', '_get_expression_variable_uses'), '''
class _LabelScope:
    __slots__ = ('defined', 'used')

    def __init__(self):
        self.defined = {}
        self.used = {}

    def unused(self):
        return [(label, self.defined[label]) for label in sorted(set(self.defined) - set(self.used))]

    def unknown(self):
        return [(label, self.used[label]) for label in sorted(set(self.used) - set(self.defined))]


class _Linter:
    def __init__(self):
        self.warnings = []
        self.pending = deque()

    def warn(self, text, index=None):
        self.warnings.append(text if index is None else f'{text} (index {index})')

    def lint(self, statements):
        if not statements:
            self.warn('Empty script')

        assigns, uses = _variables(statements)
        for name, index in sorted(assigns.items()):
            if uses.get(name, index + 1) <= index:
                self.warn(f'Global variable "{name}" used (index {uses[name]}) before assignment', index)

        labels = _LabelScope()
        functions = set()
        for index, statement in enumerate(statements):
            self.pending.append((index, statement, functions))
        while self.pending:
            index, statement, functions = self.pending.popleft()
            if 'function' in statement:
                self.function(index, statement['function'], functions)
            else:
                self.statement(index, statement, labels, 'Pointless global statement', 'global label', '')
        for label, index in labels.unused():
            self.warn(f'Unused global label "{label}"', index)
        for label, index in labels.unknown():
            self.warn(f'Unknown global label "{label}"', index)
        return self.warnings

    def statement(self, index, statement, labels, pointless, label_kind, suffix):
        (key, value), = statement.items()
        if key == 'expr':
            if 'name' not in value and _is_pointless_expression(value['expr']):
                self.warn(pointless, index)
        elif key == 'label':
            if labels.defined.setdefault(value, index) != index:
                self.warn(f'Redefinition of {label_kind} "{value}"{suffix}', index)
        elif key == 'jump':
            labels.used[value['label']] = index

    def function(self, index, function, functions):
        name = function['name']
        if name in functions:
            self.warn(f'Redefinition of function "{name}"', index)
        functions.add(name)

        assigns, uses = _variables(function['statements'])
        args = function.get('args', [])
        for var_name in sorted(assigns):
            if var_name not in args and var_name in uses and uses[var_name] <= assigns[var_name]:
                self.warn(f'Variable "{var_name}" of function "{name}" used (index {uses[var_name]}) before assignment', assigns[var_name])
        for var_name in sorted(assigns):
            if var_name not in uses:
                self.warn(f'Unused variable "{var_name}" defined in function "{name}"', assigns[var_name])
        for ix_arg, arg in enumerate(args):
            if arg in args[:ix_arg]:
                self.warn(f'Duplicate argument "{arg}" of function "{name}"', index)
            elif arg not in uses:
                self.warn(f'Unused argument "{arg}" of function "{name}"', index)

        labels = _LabelScope()
        nested = set()
        suffix = f' in function "{name}"'
        for ix_statement, statement in enumerate(function['statements']):
            if 'function' in statement:
                self.pending.append((ix_statement, statement, nested))
            else:
                self.statement(ix_statement, statement, labels, 'Pointless statement' + suffix, 'label', suffix)
        for label, ix_label in labels.unused():
            self.warn(f'Unused label "{label}"{suffix}', ix_label)
        for label, ix_label in labels.unknown():
            self.warn(f'Unknown label "{label}"{suffix}', ix_label)


def lint_script(script):
    """
    Lint a BareScript script model

    :param script: The `BareScript model <./model/#var.vName='BareScript'>`__
    :type script: dict
    :return: The list of lint warnings
    :rtype: list[str]
    """

    return _Linter().lint(script['statements'])


def _is_pointless_expression(expr):
    return not any('function' in part for part in _walk(expr, calls=False))


# The expression and its sub-expressions, in evaluation order
def _walk(expr, calls=True):
    yield expr
    (key, value), = expr.items()
    if key == 'binary':
        yield from _walk(value['left'], calls)
        yield from _walk(value['right'], calls)
    elif key == 'unary':
        yield from _walk(value['expr'], calls)
    elif key == 'group':
        yield from _walk(value, calls)
    elif key == 'function' and calls:
        for arg in value.get('args', ()):
            yield from _walk(arg, calls)


# The first assignments and uses of a statements array's variables
def _variables(statements):
    assigns = {}
    uses = {}
    for ix_statement, statement in enumerate(statements):
        (key, value), = statement.items()
        if key == 'expr' and 'name' in value:
            assigns.setdefault(value['name'], ix_statement)
        if key in ('expr', 'jump', 'return') and 'expr' in value:
            for expr in _walk(value['expr']):
                if 'variable' in expr:
                    uses.setdefault(expr['variable'], ix_statement)
                elif 'function' in expr:
                    uses.setdefault(expr['function']['name'], ix_statement)
    return assigns, uses
'''))

refactor('w-eval-class', ('runtime.py', ('evaluate_expression', '_number_operation'), '''
def evaluate_expression(expr, options=None, locals_=None, builtins=True):
    """
    Evaluate an expression model

    :param script: The `expression model <./model/#var.vName='Expression'>`__
    :type script: dict
    :param options: The :class:`script execution options <ExecuteScriptOptions>`
    :type options: dict or None, optional
    :param locals_: The local variables
    :type locals_: dict or None, optional
    :param builtins: If true, include the `built-in expression functions <library/expression.html>`__
    :type builtins: bool, optional
    :returns: The expression result
    :raises BareScriptRuntimeError: A script runtime error occurred
    """

    return _Evaluator(options, locals_, builtins).evaluate(expr)


class _Evaluator:
    def __init__(self, options, locals_, builtins):
        self.options = options
        self.scopes = [scope for scope in (locals_, options.get('globals') if options is not None else None) if scope is not None]
        self.builtins = builtins

    def evaluate(self, expr):
        (key, value), = expr.items()
        return getattr(self, f'_{key}')(value)

    @staticmethod
    def _number(value):
        return value

    @staticmethod
    def _string(value):
        return value

    def _group(self, value):
        return self.evaluate(value)

    def _variable(self, name):
        if name in self._KEYWORDS:
            return self._KEYWORDS[name]
        for scope in self.scopes:
            if name in scope:
                return scope[name]
        return None

    def _unary(self, unary):
        value = self.evaluate(unary['expr'])
        if unary['op'] == '!':
            return not value_boolean(value)
        if unary['op'] == '-' and _is_number(value):
            return _number_operation(operator.mul, -1, value)
        return None

    def _binary(self, binary):
        bin_op = binary['op']
        left = self.evaluate(binary['left'])
        if bin_op in ('&&', '||'):
            return left if value_boolean(left) == (bin_op == '||') else self.evaluate(binary['right'])
        right = self.evaluate(binary['right'])
        if bin_op in self._COMPARES:
            return self._COMPARES[bin_op](value_compare(left, right), 0)
        if _is_number(left) and _is_number(right):
            return _number_operation(self._ARITHMETIC[bin_op], left, right)
        special = self._SPECIAL.get(bin_op)
        return special(left, right) if special is not None else None

    def _function(self, function):
        name = function['name']
        args = function.get('args', [])
        if name == 'if':
            test, then, else_ = (list(args) + [None] * 3)[:3]
            chosen = then if test and value_boolean(self.evaluate(test)) else else_
            return self.evaluate(chosen) if chosen else None

        values = []
        for arg in args:
            values.append(self.evaluate(arg))
        func = None
        for scope in self.scopes + ([EXPRESSION_FUNCTIONS] if self.builtins else []):
            if name in scope:
                func = scope[name]
                break
        if func is None:
            raise BareScriptRuntimeError(f'Undefined function "{name}"')
        return self._call(name, func, values)

    def _call(self, name, func, values):
        try:
            return func(values, self.options)
        except (BareScriptRuntimeError, _IncludeParserError):
            raise
        except Exception as error: # pylint: disable=broad-exception-caught
            options = self.options or {}
            log_fn = options.get('logFn')
            if log_fn is not None and options.get('debug'):
                log_fn(f'BareScript: Function "{name}" failed with error: {error}')
            return error.return_value if isinstance(error, ValueArgsError) else None

    _KEYWORDS = {'null': None, 'false': False, 'true': True}

    _COMPARES = {
        '==': operator.eq,
        '!=': operator.ne,
        '<': operator.lt,
        '<=': operator.le,
        '>': operator.gt,
        '>=': operator.ge
    }

    _ARITHMETIC = {
        '+': operator.add,
        '-': operator.sub,
        '*': operator.mul,
        '/': operator.truediv,
        '%': operator.mod,
        '**': operator.pow
    }


# Helper to determine if a value is a number - booleans are not numbers
def _is_number(value):
    return isinstance(value, (int, float)) and not isinstance(value, bool)


def _special_add(left, right):
    if isinstance(left, str) or isinstance(right, str):
        strings = [value if isinstance(value, str) else _operand_string(value) for value in (left, right)]
        return None if None in strings else ''.join(strings)
    if isinstance(left, datetime.date) and _is_number(right):
        return _datetime_add(value_normalize_datetime(left), right)
    if _is_number(left) and isinstance(right, datetime.date):
        return _datetime_add(value_normalize_datetime(right), left)
    return None


def _special_subtract(left, right):
    if not (isinstance(left, datetime.date) and isinstance(right, datetime.date)):
        return None
    left, right = map(value_normalize_datetime, (left, right))
    return value_round_number((left - right).total_seconds() * 1000, 0)


_Evaluator._SPECIAL = {'+': _special_add, '-': _special_subtract} # pylint: disable=protected-access


# Helper to compute a number operator - returns None if the operation has no number value (e.g. division by zero, overflow)
def _number_operation(operation, left_value, right_value):
    try:
        result = operation(float(left_value), float(right_value))
    except ArithmeticError:
        return None
    return None if isinstance(result, complex) else result
'''))

refactor('w-exec-class', ('runtime.py', ('_execute_script_helper', '_script_function'), '''
def _execute_script_helper(statements, options, locals_, url_fn):
    return _Frame(statements, options, locals_, url_fn).run()


class _Frame:
    def __init__(self, statements, options, locals_, url_fn):
        self.statements = statements
        self.options = options
        self.locals = locals_
        self.url_fn = url_fn
        self.labels = {}
        self.index = 0

    def run(self):
        handlers = {
            'expr': self.on_expr,
            'jump': self.on_jump,
            'label': self.on_label,
            'return': self.on_return,
            'function': self.on_function,
            'include': self.on_include
        }
        result = []
        while not result and self.index < len(self.statements):
            statement = self.statements[self.index]
            self.count()
            key = next(iter(statement))
            handlers[key](statement[key], result)
            self.index += 1
        return result[0] if result else None

    def count(self):
        options = self.options
        options['statementCount'] += 1
        max_statements = options.get('maxStatements', DEFAULT_MAX_STATEMENTS)
        if 0 < max_statements < options['statementCount']:
            raise BareScriptRuntimeError(f'Exceeded maximum script statements ({max_statements})')

    def evaluate(self, expr):
        return evaluate_expression(expr, self.options, self.locals, False)

    def on_label(self, _label, _result):
        pass

    def on_expr(self, expr, _result):
        value = self.evaluate(expr['expr'])
        name = expr.get('name')
        if name is not None:
            scope = self.locals if self.locals is not None else self.options['globals']
            scope[name] = value

    def on_return(self, return_, result):
        result.append(self.evaluate(return_['expr']) if 'expr' in return_ else None)

    def on_jump(self, jump, _result):
        if 'expr' in jump and not value_boolean(self.evaluate(jump['expr'])):
            return
        label = jump['label']
        if label not in self.labels:
            for index, statement in enumerate(self.statements):
                if 'label' in statement and statement['label'] == label:
                    self.labels[label] = index
                    break
            else:
                raise BareScriptRuntimeError(f'Unknown jump label "{label}"')
        self.index = self.labels[label]

    def on_function(self, function, _result):
        url_fn = self.url_fn

        def script_function(args, options):
            return _script_function(function, url_fn, args, options)

        self.options['globals'][function['name']] = script_function

    def on_include(self, include, _result):
        for item in include['includes']:
            self.include(item)

    def include(self, item):
        options = self.options
        url = item['url']
        system_prefix = options.get('systemPrefix')
        if item.get('system') and system_prefix is not None:
            url = url_file_relative(system_prefix, url)
        elif self.url_fn is not None:
            url = self.url_fn(url)
        script = self.fetch(url)
        log_fn = options.get('logFn')
        if log_fn is not None and options.get('debug'):
            warnings = lint_script(script)
            if warnings:
                plural = 's' if len(warnings) != 1 else ''
                log_fn(f'BareScript: Include "{url}" static analysis... {len(warnings)} warning{plural}:')
                for warning in warnings:
                    log_fn('BareScript:     ' + warning)
        url_fn = functools.partial(url_file_relative, url)
        include_options = {**options, 'urlFn': url_fn}
        try:
            _execute_script_helper(script['statements'], include_options, None, url_fn)
        finally:
            options['statementCount'] = include_options['statementCount']

    def fetch(self, url):
        text = None
        fetch_fn = self.options.get('fetchFn')
        if fetch_fn is not None:
            try:
                text = fetch_fn({'url': url})
            except: # pylint: disable=bare-except
                pass
        if text is None:
            raise BareScriptRuntimeError(f'Include of "{url}" failed')
        try:
            return parse_script(text)
        except BareScriptParserError as exc:
            raise _IncludeParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')


# Runtime script function implementation. The URL function is that of the file containing the function definition.
def _script_function(function, url_fn, args, options):
    names = function.get('args') or []
    rest = len(names) - 1 if function.get('lastArgArray') else None
    func_locals = {}
    for index, name in enumerate(names):
        if index == rest:
            func_locals[name] = list(args[index:])
        else:
            func_locals[name] = args[index] if index < len(args) else None
    return _execute_script_helper(function['statements'], options, func_locals, url_fn)
'''))

refactor('w-parse-class', ('parser.py', ('parse_script', '_parse_match_expression'), '''
def parse_script(script_text, start_line_number=1):
    """
    Parse a BareScript script

    :param script_text: The `script text <https://craigahobbs.github.io/bare-script/language/>`__
    :type script_text: str or ~collections.abc.Iterable(str)
    :param start_line_number: The script's starting line number
    :type start_line_number: int, optional
    :return: The `BareScript model <./model/#var.vName='BareScript'>`__
    :rtype: dict
    :raises BareScriptParserError: A parsing error occurred
    """

    parts = [script_text] if isinstance(script_text, str) else script_text
    lines = [line for part in parts for line in _R_SCRIPT_LINE_SPLIT.split(part)]
    parser = _ScriptParser()
    for line, line_number in _logical_lines(lines, start_line_number):
        parser.parse_line(line, line_number)
    return parser.finish()


# Generate the logical (joined, non-comment) lines and their line numbers
def _logical_lines(lines, start_line_number):
    pending = []
    pending_number = None
    for line_number, line in enumerate(lines, start_line_number):
        if _R_SCRIPT_COMMENT.match(line):
            continue
        match_continuation = _R_SCRIPT_CONTINUATION.search(line)
        if match_continuation:
            part = line[:match_continuation.start()]
            if pending:
                pending.append(part.strip())
            else:
                pending_number = line_number
                pending.append(part.rstrip())
        elif pending:
            pending.append(line.strip())
            yield ' '.join(pending), pending_number
            pending = []
        else:
            yield line, line_number
    if pending:
        raise BareScriptParserError('Unterminated line continuation', ' '.join(pending), 1, pending_number)


class _Block:
    def __init__(self, kind, line, line_number, **labels):
        self.kind = kind
        self.line = line
        self.line_number = line_number
        self.labels = labels
        self.has_else = False
        self.has_continue = False


class _ScriptParser:
    def __init__(self):
        self.script_statements = []
        self.statements = self.script_statements
        self.blocks = []
        self.function_block = None
        self.function_depth = 0
        self.label_index = 0
        self.line = None
        self.line_number = None

    def parse_line(self, line, line_number):
        self.line = line
        self.line_number = line_number
        for pattern, handler in self._HANDLERS:
            match = pattern.match(line)
            if match:
                handler(self, match)
                return
        self.emit_expr(self.expression(line, 0))

    def finish(self):
        if self.blocks:
            self.unmatched(self.blocks[-1])
        if self.function_block is not None:
            self.unmatched(self.function_block)
        return {'statements': self.script_statements}

    @staticmethod
    def unmatched(block):
        raise BareScriptParserError(f'Missing end{block.kind} statement', block.line, 1, block.line_number)

    def error(self, message):
        return BareScriptParserError(message, self.line, 1, self.line_number)

    def expression(self, text, offset):
        try:
            return parse_expression(text)
        except BareScriptParserError as error:
            raise BareScriptParserError(error.error, self.line, offset + error.column_number, self.line_number)

    def group(self, match, name):
        return self.expression(match.group(name), match.start(name))

    def emit_expr(self, expr, name=None):
        self.statements.append({'expr': {'expr': expr} if name is None else {'name': name, 'expr': expr}})

    def emit_label(self, label):
        self.statements.append({'label': label})

    def emit_jump(self, label, expr=None):
        jump = {'label': label}
        if expr is not None:
            jump['expr'] = expr
        self.statements.append({'jump': jump})
        return jump

    def next_index(self):
        index = self.label_index
        self.label_index += 1
        return index

    def top(self, kind):
        block = self.blocks[-1] if len(self.blocks) > self.function_depth else None
        if block is None or block.kind != kind:
            raise self.error(f'No matching {kind} statement')
        return block

    def on_assignment(self, match):
        text = match.group('expr')
        self.emit_expr(self.expression(text, len(self.line) - len(text)), match.group('name'))

    def on_function(self, match):
        if self.function_block is not None:
            raise self.error('Nested function definition')
        function = {'name': match.group('name'), 'statements': []}
        args = match.group('args')
        if args is not None:
            function['args'] = _R_SCRIPT_FUNCTION_ARG_SPLIT.split(args)
        for flag in ('async', 'lastArgArray'):
            if match.group(flag) is not None:
                function[flag] = True
        self.statements.append({'function': function})
        self.function_block = _Block('function', self.line, self.line_number)
        self.function_depth = len(self.blocks)
        self.statements = function['statements']

    def on_endfunction(self, _):
        if self.function_block is None:
            raise self.error('No matching function definition')
        if len(self.blocks) > self.function_depth:
            self.unmatched(self.blocks[-1])
        self.function_block = None
        self.function_depth = 0
        self.statements = self.script_statements

    def on_if(self, match):
        expr = self.group(match, 'expr')
        index = self.next_index()
        block = _Block('if', self.line, self.line_number, done=f'__bareScriptDone{index}')
        block.jump = self.emit_jump(f'__bareScriptIf{index}', _not(expr))
        self.blocks.append(block)

    def on_elif(self, match):
        block = self.top('if')
        if block.has_else:
            raise self.error('Elif statement following else statement')
        expr = self.group(match, 'expr')
        self.emit_jump(block.labels['done'])
        self.emit_label(block.jump['label'])
        block.jump = self.emit_jump(f'__bareScriptIf{self.next_index()}', _not(expr))

    def on_else(self, _):
        block = self.top('if')
        if block.has_else:
            raise self.error('Multiple else statements')
        block.has_else = True
        self.emit_jump(block.labels['done'])
        self.emit_label(block.jump['label'])

    def on_endif(self, _):
        block = self.top('if')
        self.blocks.pop()
        if not block.has_else:
            block.jump['label'] = block.labels['done']
        self.emit_label(block.labels['done'])

    def on_while(self, match):
        expr = self.group(match, 'expr')
        index = self.next_index()
        loop = f'__bareScriptLoop{index}'
        block = _Block('while', self.line, self.line_number, loop=loop, done=f'__bareScriptDone{index}')
        block.labels['continue'] = loop if expr == {'variable': 'true'} else f'__bareScriptContinue{index}'
        block.expr = expr
        self.blocks.append(block)
        self.emit_jump(block.labels['done'], _not(expr))
        self.emit_label(loop)

    def on_endwhile(self, _):
        block = self.top('while')
        self.blocks.pop()
        labels = block.labels
        if block.has_continue and labels['continue'] != labels['loop']:
            self.emit_label(labels['continue'])
        self.emit_jump(labels['loop'], block.expr)
        self.emit_label(labels['done'])

    def on_for(self, match):
        values_expr = self.group(match, 'values')
        index = self.next_index()
        labels = {name.lower(): f'__bareScript{name}{index}' for name in ('Loop', 'Continue', 'Done', 'Index', 'Values', 'Length')}
        labels['index'] = match.group('index') or labels['index']
        self.blocks.append(_Block('for', self.line, self.line_number, **labels))
        self.emit_expr(values_expr, labels['values'])
        self.emit_expr(_call('arrayLength', labels['values']), labels['length'])
        self.emit_jump(labels['done'], _not({'variable': labels['length']}))
        self.emit_expr({'number': 0}, labels['index'])
        self.emit_label(labels['loop'])
        self.emit_expr(_call('arrayGet', labels['values'], labels['index']), match.group('value'))

    def on_endfor(self, _):
        block = self.top('for')
        self.blocks.pop()
        labels = block.labels
        if block.has_continue:
            self.emit_label(labels['continue'])
        index = {'variable': labels['index']}
        self.emit_expr({'binary': {'op': '+', 'left': index, 'right': {'number': 1}}}, labels['index'])
        self.emit_jump(labels['loop'], {'binary': {'op': '<', 'left': dict(index), 'right': {'variable': labels['length']}}})
        self.emit_label(labels['done'])

    def loop_block(self, statement):
        for block in reversed(self.blocks[self.function_depth:]):
            if block.kind in ('while', 'for'):
                return block
        raise self.error(f'{statement} statement outside of loop')

    def on_break(self, _):
        self.emit_jump(self.loop_block('Break').labels['done'])

    def on_continue(self, _):
        block = self.loop_block('Continue')
        block.has_continue = True
        self.emit_jump(block.labels['continue'])

    def on_label(self, match):
        self.emit_label(match.group('name'))

    def on_jump(self, match):
        text = match.group('expr')
        expr = self.expression(text, len(match.group('jump')) - len(text) - 1) if text else None
        self.emit_jump(match.group('name'), expr)

    def on_return(self, match):
        text = match.group('expr')
        if text:
            self.statements.append({'return': {'expr': self.expression(text, len(match.group('return')) - len(text))}})
        else:
            self.statements.append({'return': {}})

    def on_include(self, match):
        self.include({'url': _R_EXPR_STRING_ESCAPE.sub('\\\\1', match.group('url'))})

    def on_include_system(self, match):
        self.include({'url': match.group('url'), 'system': True})

    def include(self, include):
        if not (self.statements and 'include' in self.statements[-1]):
            self.statements.append({'include': {'includes': []}})
        self.statements[-1]['include']['includes'].append(include)


def _not(expr):
    return {'unary': {'op': '!', 'expr': expr}}


def _call(name, *variables):
    return {'function': {'name': name, 'args': [{'variable': variable} for variable in variables]}}
'''), ('parser.py', '''_R_SCRIPT_CONTINUE = re.compile(r'^\\s*continue\\s*$')
''', '''_R_SCRIPT_CONTINUE = re.compile(r'^\\s*continue\\s*$')

_ScriptParser._HANDLERS = ( # pylint: disable=protected-access
    (_R_SCRIPT_ASSIGNMENT, _ScriptParser.on_assignment),
    (_R_SCRIPT_FUNCTION_BEGIN, _ScriptParser.on_function),
    (_R_SCRIPT_FUNCTION_END, _ScriptParser.on_endfunction),
    (_R_SCRIPT_IF_BEGIN, _ScriptParser.on_if),
    (_R_SCRIPT_IF_ELSE_IF, _ScriptParser.on_elif),
    (_R_SCRIPT_IF_ELSE, _ScriptParser.on_else),
    (_R_SCRIPT_IF_END, _ScriptParser.on_endif),
    (_R_SCRIPT_WHILE_BEGIN, _ScriptParser.on_while),
    (_R_SCRIPT_WHILE_END, _ScriptParser.on_endwhile),
    (_R_SCRIPT_FOR_BEGIN, _ScriptParser.on_for),
    (_R_SCRIPT_FOR_END, _ScriptParser.on_endfor),
    (_R_SCRIPT_BREAK, _ScriptParser.on_break),
    (_R_SCRIPT_CONTINUE, _ScriptParser.on_continue),
    (_R_SCRIPT_LABEL, _ScriptParser.on_label),
    (_R_SCRIPT_JUMP, _ScriptParser.on_jump),
    (_R_SCRIPT_RETURN, _ScriptParser.on_return),
    (_R_SCRIPT_INCLUDE, _ScriptParser.on_include),
    (_R_SCRIPT_INCLUDE_SYSTEM, _ScriptParser.on_include_system)
)
'''))

refactor('w-value-table', ('value.py', ('value_type', 'REGEX_TYPE', 'value_string', 'value_boolean', 'value_compare'), '''
REGEX_TYPE = re.Pattern


# The value types, in order of precedence
_TYPES = (
    ('null', lambda value: value is None),
    ('string', lambda value: isinstance(value, str)),
    ('boolean', lambda value: isinstance(value, bool)),
    ('number', lambda value: isinstance(value, (int, float))),
    ('datetime', lambda value: isinstance(value, datetime.date)),
    ('object', lambda value: isinstance(value, dict)),
    ('array', lambda value: isinstance(value, list)),
    ('function', callable),
    ('regex', lambda value: isinstance(value, REGEX_TYPE))
)


def value_type(value):
    """
    Get a value's type string

    :param value: The value
    :return: The type string ('array', 'boolean', 'datetime', 'function', 'null', 'number', 'object', 'regex', 'string')
    :rtype: str
    """

    return next((type_name for type_name, is_type in _TYPES if is_type(value)), None)


def value_string(value):
    """
    Get a value's string representation

    :param value: The value
    :return: The value as a string
    :rtype: str
    """

    type_name = value_type(value)
    if type_name is None:
        return str(value) if isinstance(value, uuid.UUID) else '<unknown>'
    return _STRINGS[type_name](value)


def _number_string(value):
    if isinstance(value, int):
        return str(value)
    return format(value, '.0f') if value.is_integer() else str(value)


def _datetime_string(value):
    local = value_normalize_datetime(value).astimezone()
    iso = local.isoformat(timespec='milliseconds' if local.microsecond else 'seconds')
    return _R_DATETIME_TZ_CLEANUP.sub(r'\\1', iso)


def _constant(text):
    return lambda _: text


_STRINGS = {
    'null': _constant('null'),
    'string': lambda value: value,
    'boolean': lambda value: str(value).lower(),
    'number': _number_string,
    'datetime': _datetime_string,
    'object': lambda value: value_json(value),
    'array': lambda value: value_json(value),
    'function': _constant('<function>'),
    'regex': _constant('<regex>')
}


def value_boolean(value):
    """
    Interpret the value as a boolean

    :param value: The value
    :return: The value as a boolean
    :rtype: bool
    """

    # Objects are true, even if empty
    return value_type(value) not in _FALSEABLE or bool(value)


_FALSEABLE = frozenset(['null', 'string', 'boolean', 'number', 'array'])


def value_compare(left, right):
    """
    Compare two values

    :param left: The left value
    :param right: The right value
    :return: -1 if the left value is less than the right value, 0 if equal, and 1 if greater than
    :rtype: int
    """

    if left is None or right is None:
        return (left is not None) - (right is not None)
    left_type = value_type(left) or 'unknown'
    right_type = value_type(right) or 'unknown'
    if left_type != right_type:
        return _cmp(left_type, right_type)
    if left_type in ('string', 'boolean', 'number'):
        return _cmp(left, right)
    if left_type == 'datetime':
        return _cmp(*map(value_normalize_datetime, (left, right)))
    if left_type == 'array':
        return _compare_sequences(left, right)
    if left_type == 'object':
        left_items = [part for item in sorted(left.items()) for part in item]
        right_items = [part for item in sorted(right.items()) for part in item]
        return _compare_sequences(left_items, right_items)
    return 0


def _cmp(left, right):
    if left == right:
        return 0
    return -1 if left < right else 1


def _compare_sequences(left, right):
    for left_item, right_item in zip(left, right):
        result = value_compare(left_item, right_item)
        if result:
            return result
    return _cmp(len(left), len(right))
'''), ('value.py', "_R_DATETIME_MICROSECOND = re.compile(r'\\.(\\d{6})')\n", ''))

refactor('w-value-args', ('value.py', ('value_args_validate',), '''
def value_args_validate(fn_args, args, error_return_value=None):
    """
    Validate a function's arguments

    :param fn_args: The function arguments model
    :type fn_args: list[dict]
    :param args: The function arguments
    :type args: list
    :param error_return_value: The function's return value on error
    :return: The validated function arguments
    :rtype: list
    """

    for ix, fn_arg in enumerate(fn_args):
        if fn_arg.get('lastArgArray', False):
            args[ix:] = [args[ix:]]
        elif ix < len(args):
            args[ix] = _validate_arg(fn_arg, args[ix], error_return_value)
        else:
            args.append(_missing_arg(fn_arg, error_return_value))
    if len(args) > len(fn_args):
        raise ValueArgsError(None, len(args), error_return_value)
    return args


def _missing_arg(fn_arg, error_return_value):
    if fn_arg.get('default') is not None:
        return fn_arg['default']
    if fn_arg.get('type') == 'boolean':
        return False
    if fn_arg.get('type') is not None and not fn_arg.get('nullable'):
        raise ValueArgsError(fn_arg['name'], None, error_return_value)
    return None


def _validate_arg(fn_arg, value, error_return_value):
    arg_type = fn_arg.get('type')
    if arg_type is None:
        return value
    if arg_type == 'boolean':
        return value_boolean(value)
    valid = fn_arg.get('nullable', False) if value is None else _ARG_VALID[arg_type](value)
    if valid and value is not None and arg_type == 'number':
        if fn_arg.get('integer') and int(value) != value:
            valid = False
        for key, check in _ARG_LIMITS:
            limit = fn_arg.get(key)
            if limit is not None and not check(value, limit):
                valid = False
    if not valid:
        raise ValueArgsError(fn_arg['name'], value, error_return_value)
    return value


_ARG_LIMITS = (
    ('lt', operator.lt),
    ('lte', operator.le),
    ('gt', operator.gt),
    ('gte', operator.ge)
)

_ARG_VALID = {
    'number': lambda value: isinstance(value, (int, float)) and not isinstance(value, bool),
    'string': lambda value: isinstance(value, str),
    'array': lambda value: isinstance(value, list),
    'object': lambda value: isinstance(value, dict),
    'datetime': lambda value: isinstance(value, datetime.date),
    'regex': lambda value: isinstance(value, REGEX_TYPE),
    'function': callable
}
'''), ('value.py', 'import math\nimport re\n', 'import math\nimport operator\nimport re\n'))

refactor('w-value-parse', ('value.py', ('value_parse_number', 'value_parse_integer', 'value_parse_datetime', 'value_normalize_datetime', 'value_json', '_json_numbers', '_JSONEncoder', '_JSON_ENCODER_DEFAULT'), '''
def value_json(value, indent=None):
    """
    Get a value's JSON string representation

    :param value: The value
    :param indent: The JSON indent
    :type indent: int
    :return: The value as a JSON string
    :rtype: str
    """

    if not indent or indent < 0:
        options = {'separators': (',', ':')}
    else:
        options = {'separators': (',', ': '), 'indent': indent}
    return json.dumps(_json_numbers(value), allow_nan=False, sort_keys=True, default=_json_default, **options)


def _json_default(value):
    return value_string(value) if isinstance(value, datetime.date) or callable(value) else None


# Helper to replace a JSON value's integral floats with integers, which have no fraction
def _json_numbers(value):
    match value:
        case float():
            return int(value) if value.is_integer() else value
        case list():
            return list(map(_json_numbers, value))
        case dict():
            return dict((key, _json_numbers(item)) for key, item in value.items())
        case _:
            return value


def _try(parse, *args, errors=ValueError):
    try:
        return parse(*args)
    except errors:
        return None


def value_parse_number(text):
    """
    Parse a number string

    :param text: The string to parse as a number
    :type text: str
    :return: A number value or None if parsing fails
    :rtype: float or None
    """

    value = None if '_' in text else _try(float, text)
    return value if value is not None and math.isfinite(value) else None


def value_parse_integer(text, radix=10):
    """
    Parse an integer string

    :param text: The string to parse as a integer
    :type text: str
    :param radix: The integer's radix (2 - 36). Default is 10.
    :type radix: int
    :return: An integer value or None if parsing fails
    :rtype: int or None
    """

    if '_' in text:
        return None
    return _try(int, text, radix)


def value_parse_datetime(text):
    """
    Parse a datetime string

    :param text: The string to parse as a datetime
    :type text: str
    :return: A datetime value or None if parsing fails
    :rtype: datetime.datetime or None
    """

    m_date = _R_DATE.match(text)
    if m_date is not None:
        return _try(datetime.datetime, *(int(part) for part in m_date.groups()))
    if not _R_DATETIME.match(text):
        return None
    return _try(_parse_iso, text, errors=(OverflowError, ValueError))


def _parse_iso(text):
    result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone()
    return result.replace(tzinfo=None, microsecond=result.microsecond - result.microsecond % 1000)


def value_normalize_datetime(value):
    """
    Normalize a datetime value

    :param value: The datetime value to normalize
    :type value: datetime
    :return: The normalized datetime value
    :rtype: datetime
    """

    if not isinstance(value, datetime.datetime):
        return datetime.datetime.combine(value, datetime.time())
    return value if value.tzinfo is None else value.astimezone().replace(tzinfo=None)
'''))

refactor('w-data-comp', ('data.py', ('aggregate_data', '_sum_values', 'top_data', 'sort_data', '_sort_data_fn', 'filter_data', 'add_calculated_field'), '''
def _eval_rows(expr, variables, options):
    evaluate_expression = _import_evaluate_expression()
    parsed = parse_expression(expr)
    if variables is None:
        eval_options = options
    else:
        eval_options = {} if options is None else dict(options)
        eval_options['globals'] = {**eval_options['globals'], **variables} if 'globals' in eval_options else variables
    return (lambda row: evaluate_expression(parsed, eval_options, row)), eval_options


def add_calculated_field(data, field_name, expr, variables=None, options=None):
    """
    Add a calculated field to each row of a data array
    """

    evaluate, eval_options = _eval_rows(expr, variables, options)
    for row in data:
        row.update({field_name: evaluate(row)})
    _update_statement_count(options, eval_options)
    return data


def filter_data(data, expr, variables=None, options=None):
    """
    Filter data rows
    """

    evaluate, eval_options = _eval_rows(expr, variables, options)
    result = [row for row in data if value_boolean(evaluate(row))]
    _update_statement_count(options, eval_options)
    return result


class _Group:
    def __init__(self, row, measures):
        self.row = row
        self.values = [[] for _ in measures]


def aggregate_data(data, aggregation):
    """
    Aggregate data rows

    :param data: The data array
    :type data: list[dict]
    :param aggregation: The `aggregation model <./library/model.html#var.vName='Aggregation'>`__
    :type aggregation: dict
    :return: The aggregated data array
    :rtype: list[dict]
    """

    validate_type(AGGREGATION_TYPES, 'Aggregation', aggregation)
    categories = aggregation.get('categories') or []
    measures = aggregation['measures']

    groups = {}
    for row in data:
        values = [row.get(category) for category in categories]
        key = _value_key(values)
        if key not in groups:
            groups[key] = _Group(dict(zip(categories, values)), measures)
        for measure, measure_values in zip(measures, groups[key].values):
            value = row.get(measure['field'])
            if value is not None:
                measure_values.append(value)

    for group in groups.values():
        group.row.update(
            (measure['name'] if 'name' in measure else measure['field'], _FUNCTIONS[measure['function']](values) if values else None)
            for measure, values in zip(measures, group.values)
        )
    return [group.row for group in groups.values()]


# Helper to sum measure values - a total outside the range of finite numbers is not an error
def _sum_values(values):
    try:
        return math.fsum(values)
    except (OverflowError, ValueError):
        return sum(map(float, values))


_COMPARE_KEY = functools.cmp_to_key(value_compare)

_FUNCTIONS = {
    'average': lambda values: statistics.mean(values),
    'count': len,
    'max': lambda values: max(values, key=_COMPARE_KEY),
    'min': lambda values: min(values, key=_COMPARE_KEY),
    'stddev': statistics.pstdev,
    'sum': _sum_values
}


def sort_data(data, sorts):
    """
    Sort data rows
    """

    # The sort is stable - sort by each field, the most significant last
    for field, desc in reversed([(sort[0], len(sort) > 1 and sort[1]) for sort in sorts]):
        data.sort(key=lambda row, field=field: _COMPARE_KEY(row.get(field)), reverse=bool(desc))
    return data


def top_data(data, count, category_fields=None):
    """
    Top data rows

    :param data: The data array
    :type data: list[dict]
    :param count: The number of rows to keep
    :type count: int
    :param categoryFields: The category fields
    :type categoryFields: list[str]
    :return: The top data array
    :rtype: list[dict]
    """

    groups = collections.defaultdict(list)
    for row in data:
        groups[_value_key([row.get(field) for field in category_fields or ()])].append(row)
    return [row for rows in groups.values() for row in rows[:max(int(count), 0)]]
'''), ('data.py', 'import datetime\nimport functools\n', 'import collections\nimport datetime\nimport functools\n'))

refactor('w-data-validate', ('data.py', ('validate_data',), '''
def validate_data(data, csv=False):
    """
    Determine data field types and parse/validate field values

    :param data: The data array. Row objects are updated with parsed/validated values.
    :type data: list[dict]
    :param csv: If true, parse value strings
    :type csv: bool
    :return: The map of field name to field type ("boolean", "datetime", "number", "string")
    :rtype: dict
    :raises TypeError: Data is invalid
    """

    types = {}
    for row in data:
        for field, value in row.items():
            if types.get(field) is None and _has_type(value):
                types[field] = _field_type(value, csv)
    types = {field: field_type or 'string' for field, field_type in types.items()}

    for row in data:
        for field in list(row):
            if field in types:
                row[field] = _field_value(field, types[field], row[field], csv)
    return types


def _has_type(value):
    return isinstance(value, (bool, int, float, datetime.date, str))


def _field_type(value, csv):
    if not isinstance(value, str):
        return value_type(value)
    if not csv:
        return 'string'
    if value in ('', 'null'):
        return None
    if value_parse_datetime(value) is not None:
        return 'datetime'
    if value in _BOOLEANS:
        return 'boolean'
    return 'string' if value_parse_number(value) is None else 'number'


_BOOLEANS = {'true': True, 'false': False}


def _parse_datetime_field(value):
    result = value_parse_datetime(value)
    # Text that merely resembles a date is kept as a string
    if result is None and _R_DATE_LIKE.match(value):
        return value
    return result


_PARSERS = {'boolean': _BOOLEANS.get, 'datetime': _parse_datetime_field, 'number': value_parse_number}


def _field_value(field, field_type, value, csv):
    if value is None:
        return None
    if csv and isinstance(value, str):
        if value == 'null':
            return None
        if field_type == 'string':
            return value
        if not value:
            return None
        parsed = _PARSERS[field_type](value)
        if parsed is not None:
            return parsed
    elif value_type(value) == field_type:
        return value
    raise TypeError(f'Invalid "{field}" field value {value_json(value)}, expected type {field_type}')
'''))

refactor('w-bare-split', ('bare.py', ('main', '_fetch_include', '_FETCH_INCLUDE_PREFIX'), '''
_FETCH_INCLUDE_PREFIX = ':bare-include:' + os.sep


def _arguments(argv):
    parser = argparse.ArgumentParser(prog='bare', description='The BareScript command-line interface')
    parser.add_argument('file', nargs='*', action=_FileScriptAction, help='files to process')
    parser.add_argument('-c', '--code', action=_InlineScriptAction, help='execute the BareScript code')
    parser.add_argument('-d', '--debug', action='store_true', help='enable debug mode')
    parser.add_argument('-m', '--markdown-up', action='store_true', help='run with MarkdownUp stubs')
    parser.add_argument('-s', '--static', action='store_true', help='perform static analysis')
    parser.add_argument('-v', '--var', nargs=2, action='append', metavar=('VAR', 'EXPR'), default = [],
                        help='set a global variable to an expression value')
    args = parser.parse_args(args=argv)
    if not args.scripts:
        parser.print_help()
        parser.exit()
    return args


def main(argv=None):
    """
    BareScript command-line interface (CLI) main entry point
    """

    sys.exit(_Runner(_arguments(argv)).run())


class _Runner:
    def __init__(self, args):
        self.args = args
        self.name = None
        self.globals = {}

    def run(self):
        try:
            self.globals.update((name, evaluate_expression(parse_expression(expr))) for name, expr in self.args.var)
            for name, source, url_fn in self.sources():
                status = self.run_script(name, source, url_fn)
                if status != 0:
                    return status
        except Exception as error: # pylint: disable=broad-exception-caught
            if self.name is not None:
                print(f'{self.name}:')
            print(str(error).strip())
            return 1
        return 0

    def sources(self):
        inline_count = 0
        scripts = list(self.args.scripts)
        if self.args.markdown_up:
            scripts.insert(0, ('code', 'include <markdownUp.bare>'))
        for kind, value in scripts:
            if kind == 'file':
                yield value, self.load(value), partial(url_file_relative, value)
            else:
                inline_count += 1
                yield f'-c {inline_count}', value, None

    @staticmethod
    def load(path):
        try:
            source = fetch_read_write({'url': path})
        except: # pylint: disable=bare-except
            source = None
        if source is None:
            raise ValueError(f'Failed to load "{path}"')
        return source

    def run_script(self, name, source, url_fn):
        args = self.args
        self.name = name
        script = parse_script(source)
        if args.static or args.debug:
            warnings = lint_script(script)
            self.report(name, warnings)
            if args.static:
                return 1 if warnings else 0
        begin = time.time()
        result = execute_script(script, {
            'debug': bool(args.debug),
            'fetchFn': _fetch_include,
            'globals': self.globals,
            'logFn': log_stdout,
            'systemPrefix': _FETCH_INCLUDE_PREFIX,
            'urlFn': url_fn
        })
        status = self.status(result)
        if args.debug:
            print('BareScript: Script executed in %.1f milliseconds' % (1000 * (time.time() - begin)))
        return status

    @staticmethod
    def report(name, warnings):
        prefix = f'BareScript: Static analysis "{name}" ...'
        if not warnings:
            print(prefix, 'OK')
            return
        print(f'{prefix} {len(warnings)} warning{"s" if len(warnings) > 1 else ""}:')
        print('\\n'.join(f'BareScript:     {warning}' for warning in warnings))

    @staticmethod
    def status(result):
        if isinstance(result, (int, float)) and int(result) == result and 0 <= result <= 255:
            return int(result)
        return int(value_boolean(result))


def _fetch_include(request):
    # Is this a bare system include?
    head, prefix, path = request['url'].partition(_FETCH_INCLUDE_PREFIX)
    if prefix and not head:
        return importlib.resources.files('bare_script.include').joinpath(path).read_text(encoding='utf-8')
    return fetch_read_write(request)
'''))

refactor('w-options', ('options.py', ('fetch_read_only', 'fetch_read_write', 'url_file_relative'), '''
def _is_url(url):
    return _R_URL.match(url) is not None


def _read(path):
    with open(path, 'r', encoding='utf-8') as fh:
        return fh.read()


def fetch_read_only(request):
    """
    A :func:`fetch function <fetch_fn>` implementation that fetches resources that uses HTTP GET
    and POST for URLs, otherwise read-only file system access
    """

    if _is_url(request['url']):
        return fetch_http(request)
    return _read(request['url']) if request.get('body') is None else None


def fetch_read_write(request):
    """
    A :func:`fetch function <fetch_fn>` implementation that fetches resources that uses HTTP GET
    and POST for URLs, otherwise read-write file system access
    """

    url, body = request['url'], request.get('body')
    if body is None or _is_url(url):
        return fetch_read_only(request)
    with open(url, mode='w', encoding='utf-8') as fh:
        fh.write(body)
    return '{}'


def url_file_relative(file_, url):
    """
    A :func:`URL function <url_fn>` implementation that fixes up file-relative paths

    :param file_: The URL or OS path to which relative URLs are relative
    :param url: The URL or POSIX path to resolve
    :return: The resolved URL
    """

    if _is_url(url):
        return url
    is_absolute = url.startswith('/')
    if not is_absolute and _is_url(file_):
        base, slash, _ = file_.rpartition('/')
        return base + slash + url
    os_path = str(Path(url))
    return os_path if is_absolute else os.path.join(os.path.dirname(file_), os_path)
'''))
