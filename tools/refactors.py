#!/usr/bin/env python3
"""Development tool: behaviour-preserving edits, on which every check has to stay quiet.

python3 tools/refactors.py test [ID..]     the repository's tests pass with the edit
python3 tools/refactors.py group           greedy groups of edits that apply together: tests, then every check once per group
python3 tools/refactors.py check [ID..] [--props=C01,C02]   run the checks on an edited scratch copy
"""
import ast
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path(__file__).resolve().parent.parent
REFACTORS = {}


def refactor(name, *edits):
    REFACTORS[name] = edits


# -- runtime.py
refactor('rt-jump-helper', ('runtime.py', '''                # Find the label
                if label_indexes is not None and statement['jump']['label'] in label_indexes:
                    ix_statement = label_indexes[statement['jump']['label']]
                else:
                    jump_label = statement['jump']['label']
                    ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label), -1)
                    if ix_label == -1:
                        raise BareScriptRuntimeError(f"Unknown jump label \\"{statement['jump']['label']}\\"")
                    if label_indexes is None:
                        label_indexes = {}
                    label_indexes[statement['jump']['label']] = ix_label
                    ix_statement = ix_label
''', '''                if label_indexes is None:
                    label_indexes = {}
                ix_statement = _jump_target(statements, label_indexes, statement['jump']['label'])
'''), ('runtime.py', '''# Runtime script function implementation.''', '''# Helper to find the index of a label - found labels are remembered
def _jump_target(statements, label_indexes, label):
    ix_label = label_indexes.get(label)
    if ix_label is None:
        for ix_stmt, stmt in enumerate(statements):
            if 'label' in stmt and stmt['label'] == label:
                ix_label = ix_stmt
                break
        else:
            raise BareScriptRuntimeError(f'Unknown jump label "{label}"')
        label_indexes[label] = ix_label
    return ix_label


# Runtime script function implementation.'''))
refactor('rt-label-prepass', ('runtime.py', '''    label_indexes = None
    statements_length''', '''    label_indexes = {}
    for ix_label, label_statement in enumerate(statements):
        if 'label' in label_statement:
            label_indexes.setdefault(label_statement['label'], ix_label)
    statements_length'''), ('runtime.py', '''                if label_indexes is not None and statement['jump']['label'] in label_indexes:
                    ix_statement = label_indexes[statement['jump']['label']]
                else:
                    jump_label = statement['jump']['label']
                    ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label), -1)
                    if ix_label == -1:
                        raise BareScriptRuntimeError(f"Unknown jump label \\"{statement['jump']['label']}\\"")
                    if label_indexes is None:
                        label_indexes = {}
                    label_indexes[statement['jump']['label']] = ix_label
                    ix_statement = ix_label
''', '''                try:
                    ix_statement = label_indexes[statement['jump']['label']]
                except KeyError:
                    raise BareScriptRuntimeError(f"Unknown jump label \\"{statement['jump']['label']}\\"") from None
'''))
refactor('rt-match', ('runtime.py', '''        # Expression?
        if statement_key == 'expr':
            expr_value''', '''        if (expression_statement := statement.get('expr')) is not None:
            expr_value'''), ('runtime.py', '''            # number + number
            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
                return _number_operation(operator.add, left_value, right_value)

            # string + string
            elif isinstance(left_value, str) and isinstance(right_value, str):
                return left_value + right_value

            # string + <any>
            elif isinstance(left_value, str):
                right_string = _operand_string(right_value)
                return left_value + right_string if right_string is not None else None
            elif isinstance(right_value, str):
                left_string = _operand_string(left_value)
                return left_string + right_value if left_string is not None else None

            # datetime + number
            elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
                left_dt = value_normalize_datetime(left_value)
                return _datetime_add(left_dt, right_value)
            elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
                right_dt = value_normalize_datetime(right_value)
                return _datetime_add(right_dt, left_value)
''', '''            match left_value, right_value:
                case (int() | float(), int() | float()):
                    return _number_operation(operator.add, left_value, right_value)
                case (str(), str()):
                    return f'{left_value}{right_value}'
                case (str(), _):
                    right_string = _operand_string(right_value)
                    return None if right_string is None else ''.join((left_value, right_string))
                case (_, str()):
                    left_string = _operand_string(left_value)
                    return None if left_string is None else left_string + right_value
                case (datetime.date(), int() | float()):
                    return _datetime_add(value_normalize_datetime(left_value), right_value)
                case (int() | float(), datetime.date()):
                    return _datetime_add(value_normalize_datetime(right_value), left_value)
                case _:
                    pass
'''), ('runtime.py', '''            expr_name = statement['expr'].get('name')
            if expr_name is not None:
                if locals_ is not None:
                    locals_[expr_name] = expr_value
                else:
                    globals_[expr_name] = expr_value
''', '''            if 'name' in expression_statement:
                (globals_ if locals_ is None else locals_)[expression_statement['name']] = expr_value
'''))
refactor('rt-optable', ('runtime.py', '''        elif bin_op == '==':
            return value_compare(left_value, right_value) == 0

        elif bin_op == '!=':
            return value_compare(left_value, right_value) != 0

        elif bin_op == '<=':
            return value_compare(left_value, right_value) <= 0

        elif bin_op == '<':
            return value_compare(left_value, right_value) < 0

        elif bin_op == '>=':
            return value_compare(left_value, right_value) >= 0

        elif bin_op == '>':
            return value_compare(left_value, right_value) > 0

        elif bin_op == '%':
            # number % number
            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
                return _number_operation(operator.mod, left_value, right_value)

        else: # bin_op == '**'
            # number ** number
            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
                return _number_operation(operator.pow, left_value, right_value)
''', '''        elif bin_op in _COMPARISONS:
            return _COMPARISONS[bin_op](value_compare(left_value, right_value), 0)

        elif _is_number(left_value) and _is_number(right_value):
            return _number_operation({'%': operator.mod, '**': operator.pow}[bin_op], left_value, right_value)
'''), ('runtime.py', '''# Helper to compute a number operator -''', '''def _is_number(value):
    return type(value) in (int, float)


_COMPARISONS = {
    '==': operator.eq,
    '!=': operator.ne,
    '<=': operator.le,
    '<': operator.lt,
    '>=': operator.ge,
    '>': operator.gt
}


# Helper to compute a number operator -'''))
refactor('rt-args-zip', ('runtime.py', '''    func_locals = {}
    func_args = function.get('args')
    if func_args is not None:
        args_length = len(args)
        func_args_length = len(func_args)
        ix_arg_last = (func_args_length - 1) if function.get('lastArgArray') else None
        for ix_arg in range(func_args_length):
            arg_name = func_args[ix_arg]
            if ix_arg < args_length:
                func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]
            else:
                func_locals[arg_name] = [] if ix_arg == ix_arg_last else None
    return''', '''    func_args = function.get('args') or []
    values = list(args[:len(func_args)])
    values.extend([None] * (len(func_args) - len(values)))
    func_locals = dict(zip(func_args, values))
    if func_args and function.get('lastArgArray'):
        func_locals[func_args[-1]] = list(args[len(func_args) - 1:])
    return'''))
refactor('rt-for-eval', ('runtime.py', '''        func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \\
            if 'args' in expr['function'] else []
''', '''        func_args = list(map(lambda arg: evaluate_expression(arg, options, locals_, builtins), expr['function'].get('args', ())))
'''), ('runtime.py', '''        # Global/local function?
        if locals_ is not None and func_name in locals_:
            func_value = locals_[func_name]
        elif globals_ is not None and func_name in globals_:
            func_value = globals_[func_name]
        else:
            func_value = EXPRESSION_FUNCTIONS.get(func_name) if builtins else None
        if func_value is not None:
            # Call the function
            try:
                return func_value(func_args, options)
            except (BareScriptRuntimeError, _IncludeParserError):
                raise
            except Exception as error: # pylint: disable=broad-exception-caught
                # Log and return null
                if options is not None and options.get('logFn') is not None and options.get('debug'):
                    options['logFn'](f'BareScript: Function "{func_name}" failed with error: {error}')
                if isinstance(error, ValueArgsError):
                    return error.return_value
                return None

        raise BareScriptRuntimeError(f'Undefined function "{func_name}"')
''', '''        func_value = _lookup(func_name, locals_, globals_, EXPRESSION_FUNCTIONS if builtins else {})
        if func_value is None:
            raise BareScriptRuntimeError(f'Undefined function "{func_name}"')
        return _call_function(func_name, func_value, func_args, options)
'''), ('runtime.py', '''# Helper to compute a number operator -''', '''def _lookup(name, *scopes):
    return next((scope[name] for scope in scopes if scope is not None and name in scope), None)


def _call_function(func_name, func_value, func_args, options):
    result = None
    try:
        result = func_value(func_args, options)
    except (BareScriptRuntimeError, _IncludeParserError):
        raise
    except ValueArgsError as error:
        _log_failure(func_name, error, options)
        result = error.return_value
    except Exception as error: # pylint: disable=broad-exception-caught
        _log_failure(func_name, error, options)
    return result


def _log_failure(func_name, error, options):
    if not options:
        return
    log_fn = options.get('logFn')
    if log_fn is not None and options.get('debug'):
        log_fn('BareScript: Function "%s" failed with error: %s' % (func_name, error))


# Helper to compute a number operator -'''))
refactor('rt-include-helper', ('runtime.py', '''            system_prefix = options.get('systemPrefix')
            fetch_fn = options.get('fetchFn')
            log_fn = options.get('logFn')
            for include in statement['include']['includes']:
                url = include['url']

                # Fixup system include URL
                if include.get('system') and system_prefix is not None:
                    url = url_file_relative(system_prefix, url)
                elif url_fn is not None:
                    url = url_fn(url)

                # Fetch the URL
                try:
                    script_text = fetch_fn({'url': url}) if fetch_fn is not None else None
                except: # pylint: disable=bare-except
                    script_text = None
                if script_text is None:
                    raise BareScriptRuntimeError(f'Include of "{url}" failed')

                # Parse the include script
                try:
                    script = parse_script(script_text)
                except BareScriptParserError as exc:
                    raise _IncludeParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')

                # Run the bare-script linter?
                if log_fn is not None and options.get('debug'):
                    warnings = lint_script(script)
                    if warnings:
                        warning_prefix = f'BareScript: Include "{url}" static analysis...'
                        log_fn(f'{warning_prefix} {len(warnings)} warning{"s" if len(warnings) > 1 else ""}:')
                        for warning in warnings:
                            log_fn(f'BareScript:     {warning}')

                # Execute the include script
                include_options = options.copy()
                include_options['urlFn'] = functools.partial(url_file_relative, url)
                try:
                    _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                finally:
                    options['statementCount'] = include_options['statementCount']
''', '''            for include in statement['include']['includes']:
                _execute_include(include, options, url_fn)
'''), ('runtime.py', '''# Runtime script function implementation.''', '''def _execute_include(include, options, url_fn):
    url = _include_url(include, options.get('systemPrefix'), url_fn)
    script = _include_script(url, options.get('fetchFn'))
    log_fn = options.get('logFn')
    if log_fn is not None and options.get('debug'):
        warnings = lint_script(script)
        count = len(warnings)
        if count != 0:
            plural = 's' if count > 1 else ''
            log_fn(f'BareScript: Include "{url}" static analysis... {count} warning{plural}:')
        for warning in warnings:
            log_fn('BareScript:     ' + warning)

    include_options = {**options, 'urlFn': functools.partial(url_file_relative, url)}
    try:
        _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
    finally:
        options['statementCount'] = include_options['statementCount']


def _include_url(include, system_prefix, url_fn):
    url = include['url']
    if system_prefix is not None and include.get('system'):
        return url_file_relative(system_prefix, url)
    return url if url_fn is None else url_fn(url)


def _include_script(url, fetch_fn):
    script_text = None
    if fetch_fn is not None:
        try:
            script_text = fetch_fn({'url': url})
        except: # pylint: disable=bare-except
            pass
    if script_text is None:
        raise BareScriptRuntimeError(f'Include of "{url}" failed')
    try:
        return parse_script(script_text)
    except BareScriptParserError as exc:
        raise _IncludeParserError(
            error=exc.error, line=exc.line, column_number=exc.column_number, line_number=exc.line_number,
            prefix=f'Included from "{url}"'
        )


# Runtime script function implementation.'''))
refactor('rt-dispatch', ('runtime.py', '''    # Number
    if expr_key == 'number':
        return expr['number']

    # String
    if expr_key == 'string':
        return expr['string']

    # Variable
    if expr_key == 'variable':
        # Keywords
        if expr['variable'] == 'null':
            return None
        if expr['variable'] == 'false':
            return False
        if expr['variable'] == 'true':
            return True

        # Get the local or global variable value or None if undefined
        if locals_ is not None and expr['variable'] in locals_:
            return locals_[expr['variable']]
        else:
            return globals_.get(expr['variable']) if globals_ is not None else None
''', '''    if expr_key in ('number', 'string'):
        return expr[expr_key]
    if expr_key == 'group':
        return evaluate_expression(expr['group'], options, locals_, builtins)
    if expr_key == 'variable':
        name = expr['variable']
        if name in _KEYWORDS:
            return _KEYWORDS[name]
        for scope in (locals_, globals_):
            if scope is not None and name in scope:
                return scope[name]
        return None
'''), ('runtime.py', '''    # Unary expression
    if expr_key == 'unary':
        unary_op = expr['unary']['op']
        value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
        if unary_op == '!':
            return not value_boolean(value)
        elif unary_op == '-' and isinstance(value, (int, float)) and not isinstance(value, bool):
            return _number_operation(operator.mul, -1, value)

        # Invalid operation value
        return None

    # Expression group
    # expr_key == 'group'
    return evaluate_expression(expr['group'], options, locals_, builtins)
''', '''    # Unary expression
    value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
    if expr['unary']['op'] == '!':
        return not value_boolean(value)
    if isinstance(value, bool) or not isinstance(value, (int, float)):
        return None
    return _number_operation(operator.mul, -1, value)


_KEYWORDS = {'null': None, 'false': False, 'true': True}
'''), ('runtime.py', '''        # Short-circuiting "and" binary operator
        if bin_op == '&&':
            if not value_boolean(left_value):
                return left_value
            return evaluate_expression(expr['binary']['right'], options, locals_, builtins)

        # Short-circuiting "or" binary operator
        elif bin_op == '||':
            if value_boolean(left_value):
                return left_value
            return evaluate_expression(expr['binary']['right'], options, locals_, builtins)

''', '''        if bin_op in ('&&', '||') and value_boolean(left_value) == (bin_op == '||'):
            return left_value

'''), ('runtime.py', '''        if bin_op == '+':
            # number + number''', '''        if bin_op in ('&&', '||'):
            return right_value
        if bin_op == '+':
            # number + number'''))
refactor('rt-for-statements', ('runtime.py', '''        statement = statements[ix_statement]
        statement_key = next(iter(statement.keys()))

        # Increment the statement counter
        options['statementCount'] += 1
        max_statements = options.get('maxStatements', DEFAULT_MAX_STATEMENTS)
        if max_statements > 0 and options['statementCount'] > max_statements:
            raise BareScriptRuntimeError(f'Exceeded maximum script statements ({max_statements})')
''', '''        _count_statement(options)
        statement = statements[ix_statement]
        ix_statement += 1
        statement_key, = statement
'''), ('runtime.py', '''        # Increment the statement counter
        ix_statement += 1

    return None
''', '''    return None


# Helper to count a statement
def _count_statement(options):
    statement_count = options['statementCount'] + 1
    options['statementCount'] = statement_count
    max_statements = options.get('maxStatements', DEFAULT_MAX_STATEMENTS)
    if 0 < max_statements < statement_count:
        raise BareScriptRuntimeError(f'Exceeded maximum script statements ({max_statements})')
'''), ('runtime.py', '''                    label_indexes[statement['jump']['label']] = ix_label
                    ix_statement = ix_label
''', '''                    label_indexes[statement['jump']['label']] = ix_label
                    ix_statement = ix_label
                ix_statement += 1
'''))

# -- parser.py
refactor('pa-loop-helper', ('parser.py', '''            label_def_depth = function_label_def_depth if function_def is not None else 0
            ix_label_def = next((i for i, d in reversed(list(enumerate(label_defs))) if 'if' not in d), -1)
            if ix_label_def < label_def_depth:
                raise BareScriptParserError('Break statement outside of loop', line, 1, start_line_number + ix_line)
            label_def = label_defs[ix_label_def]
            label_key = next(iter(label_def))
            loop_def = label_def[label_key]
''', '''            loop_def = _innermost_loop(label_defs, function_label_def_depth if function_def is not None else 0)
            if loop_def is None:
                raise BareScriptParserError('Break statement outside of loop', line, 1, start_line_number + ix_line)
'''), ('parser.py', '''# BareScript regex
''', '''# Helper function to find the innermost loop definition
def _innermost_loop(label_defs, depth):
    ix = len(label_defs) - 1
    while ix >= depth:
        (key, definition), = label_defs[ix].items()
        if key != 'if':
            return definition
        ix -= 1
    return None


# BareScript regex
'''))
refactor('pa-expr-loop', ('parser.py', '''    # Match a binary operator - if not found, return the left expression
    match_binary_op = _R_EXPR_BINARY_OP.match(bin_text)
    if match_binary_op is None:
        return [left_expr, bin_text]
    bin_op = match_binary_op.group(1)
    right_text = bin_text[len(match_binary_op.group(0)):]

    # Parse the right sub-expression
    right_expr, next_text = _parse_unary_expression(right_text)

    # Create the binary expression - re-order for binary operators as necessary
    bin_expr = None
    if 'binary' in left_expr and bin_op in BINARY_REORDER and left_expr['binary']['op'] in BINARY_REORDER[bin_op]:
        # Left expression has lower precedence - find where to put this expression within the left expression
        bin_expr = left_expr
        reorder_expr = left_expr
        while 'binary' in reorder_expr['binary']['right'] and reorder_expr['binary']['right']['binary']['op'] in BINARY_REORDER[bin_op]:
            reorder_expr = reorder_expr['binary']['right']
        reorder_expr['binary']['right'] = {'binary': {'op': bin_op, 'left': reorder_expr['binary']['right'], 'right': right_expr}}
    else:
        bin_expr = {'binary': {'op': bin_op, 'left': left_expr, 'right': right_expr}}

    # Parse the next binary expression in the chain
    return _parse_binary_expression(next_text, bin_expr)
''', '''    while True:
        match_binary_op = _R_EXPR_BINARY_OP.match(bin_text)
        if match_binary_op is None:
            return [left_expr, bin_text]
        bin_op = match_binary_op.group(1)
        right_expr, bin_text = _parse_unary_expression(bin_text[match_binary_op.end():])

        # Find the innermost right operand that binds less tightly
        holder = None
        operand = left_expr
        while 'binary' in operand and operand['binary']['op'] in BINARY_REORDER[bin_op]:
            holder = operand['binary']
            operand = holder['right']
        bin_expr = {'binary': {'op': bin_op, 'left': operand, 'right': right_expr}}
        if holder is None:
            left_expr = bin_expr
        else:
            holder['right'] = bin_expr
'''))
refactor('pa-precedence-climb', ('parser.py', '''    # Parse the binary operator's left unary expression if none was passed
    if bin_left_expr is not None:
        bin_text = expr_text
        left_expr = bin_left_expr
    else:
        left_expr, bin_text = _parse_unary_expression(expr_text)

    # Match a binary operator - if not found, return the left expression
    match_binary_op = _R_EXPR_BINARY_OP.match(bin_text)
    if match_binary_op is None:
        return [left_expr, bin_text]
    bin_op = match_binary_op.group(1)
    right_text = bin_text[len(match_binary_op.group(0)):]

    # Parse the right sub-expression
    right_expr, next_text = _parse_unary_expression(right_text)

    # Create the binary expression - re-order for binary operators as necessary
    bin_expr = None
    if 'binary' in left_expr and bin_op in BINARY_REORDER and left_expr['binary']['op'] in BINARY_REORDER[bin_op]:
        # Left expression has lower precedence - find where to put this expression within the left expression
        bin_expr = left_expr
        reorder_expr = left_expr
        while 'binary' in reorder_expr['binary']['right'] and reorder_expr['binary']['right']['binary']['op'] in BINARY_REORDER[bin_op]:
            reorder_expr = reorder_expr['binary']['right']
        reorder_expr['binary']['right'] = {'binary': {'op': bin_op, 'left': reorder_expr['binary']['right'], 'right': right_expr}}
    else:
        bin_expr = {'binary': {'op': bin_op, 'left': left_expr, 'right': right_expr}}

    # Parse the next binary expression in the chain
    return _parse_binary_expression(next_text, bin_expr)
''', '''    left_expr, bin_text = _parse_unary_expression(expr_text)
    while True:
        match_binary_op = _R_EXPR_BINARY_OP.match(bin_text)
        if match_binary_op is None or _PRECEDENCE[match_binary_op.group(1)] < min_precedence:
            return left_expr, bin_text
        bin_op = match_binary_op.group(1)
        right_expr, bin_text = _parse_binary_expression(bin_text[match_binary_op.end(0):], _PRECEDENCE[bin_op] + 1)
        left_expr = {'binary': {'op': bin_op, 'left': left_expr, 'right': right_expr}}


_PRECEDENCE = {
    '||': 0, '&&': 1, '==': 2, '!=': 2, '<=': 3, '<': 3, '>=': 3, '>': 3, '+': 4, '-': 4, '*': 5, '/': 5, '%': 5, '**': 6
}
'''), ('parser.py', 'def _parse_binary_expression(expr_text, bin_left_expr=None):', 'def _parse_binary_expression(expr_text, min_precedence=0):'))
refactor('pa-lines-gen', ('parser.py', '''    lines = []
    if isinstance(script_text, str):
        lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text))
    else:
        for script_text_part in script_text:
            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part))
''', '''    parts = [script_text] if isinstance(script_text, str) else script_text
    lines = [part_line for part in parts for part_line in _R_SCRIPT_LINE_SPLIT.split(part)]
'''), ('parser.py', '''        # Comment?
        if _R_SCRIPT_COMMENT.match(line_part) is not None:
            continue
''', '''        # Comment?
        line_strip = line_part.strip()
        if not line_strip or line_strip[0] == '#':
            continue
'''), ('parser.py', '''        if is_continued:
            line = ' '.join(line_continuation)
            line_continuation.clear()
        else:
            line = line_part
''', '''        line = line_part
        if is_continued:
            line = ' '.join(line_continuation)
            line_continuation = []
'''))
refactor('pa-assign-helper', ('parser.py', '''            try:
                expr_statement = {
                    'expr': {
                        'name': match_assignment.group('name'),
                        'expr': parse_expression(match_assignment.group('expr'))
                    }
                }
                statements.append(expr_statement)
                continue
            except BareScriptParserError as error:
                column_number = len(line) - len(match_assignment.group('expr')) + error.column_number
                raise BareScriptParserError(error.error, line, column_number, start_line_number + ix_line)
''', '''            value = _parse_match_expression(match_assignment, 'expr', line, start_line_number + ix_line)
            statements.append({'expr': {'name': match_assignment.group('name'), 'expr': value}})
            continue
'''), ('parser.py', '''            if match_function_begin.group('args') is not None:
                function_def['function']['args'] = _R_SCRIPT_FUNCTION_ARG_SPLIT.split(match_function_begin.group('args'))
            if match_function_begin.group('async') is not None:
                function_def['function']['async'] = True
            if match_function_begin.group('lastArgArray') is not None:
                function_def['function']['lastArgArray'] = True
''', '''            groups = match_function_begin.groupdict()
            if groups['args'] is not None:
                function_def['function']['args'] = [arg.strip() for arg in groups['args'].split(',')]
            for flag in ('async', 'lastArgArray'):
                if groups[flag] is not None:
                    function_def['function'][flag] = True
'''))
refactor('pa-column', ('parser.py', '''    try:
        expr, next_text = _parse_binary_expression(expr_text)
        if next_text.strip() != '':
            raise BareScriptParserError('Syntax error', next_text)
        return expr
    except BareScriptParserError as error:
        column_number = len(expr_text) - len(error.line) + 1
        raise BareScriptParserError(error.error, expr_text, column_number)
''', '''    try:
        expr, next_text = _parse_binary_expression(expr_text)
    except BareScriptParserError as error:
        raise BareScriptParserError(error.error, expr_text, 1 + len(expr_text) - len(error.line)) from error
    if next_text and not next_text.isspace():
        raise BareScriptParserError('Syntax error', expr_text, 1 + len(expr_text) - len(next_text))
    return expr
'''), ('parser.py', '''        if len(line) > line_length_max:
            line_left = column_number - 1 - line_length_max // 2
            line_right = line_left + line_length_max
            if line_left < 0:
                line_error = line[:line_length_max] + line_suffix
            elif line_right > len(line):
                line_error = line_prefix + line[-line_length_max:]
                line_column -= line_left - len(line_prefix) - (line_right - len(line))
            else:
                line_error = line_prefix + line[int(line_left):int(line_right)] + line_suffix
                line_column -= line_left - len(line_prefix)
''', '''        excess = len(line) - line_length_max
        if excess > 0:
            line_left = column_number - 1 - line_length_max // 2
            if line_left < 0:
                line_error = f'{line[:line_length_max]}{line_suffix}'
            else:
                offset = min(line_left, excess)
                line_error = line_prefix + line[offset:offset + line_length_max]
                if line_left <= excess:
                    line_error += line_suffix
                line_column = column_number - offset + len(line_prefix)
'''))
refactor('pa-statement-table', ('parser.py', '''        # Label definition?
        match_label = _R_SCRIPT_LABEL.match(line)
        if match_label:
            statements.append({'label': match_label.group('name')})
            continue

        # Jump definition?
        match_jump = _R_SCRIPT_JUMP.match(line)
        if match_jump:
            jump_statement = {'jump': {'label': match_jump.group('name')}}
            if match_jump.group('expr'):
                try:
                    jump_statement['jump']['expr'] = parse_expression(match_jump.group('expr'))
                except BareScriptParserError as error:
                    column_number = len(match_jump.group('jump')) - len(match_jump.group('expr')) - 1 + error.column_number
                    raise BareScriptParserError(error.error, line, column_number, start_line_number + ix_line)
            statements.append(jump_statement)
            continue

        # Return definition?
        match_return = _R_SCRIPT_RETURN.match(line)
        if match_return:
            return_statement = {'return': {}}
            if match_return.group('expr'):
                try:
                    return_statement['return']['expr'] = parse_expression(match_return.group('expr'))
                except BareScriptParserError as error:
                    column_number = len(match_return.group('return')) - len(match_return.group('expr')) + error.column_number
                    raise BareScriptParserError(error.error, line, column_number, start_line_number + ix_line)
            statements.append(return_statement)
            continue
''', '''        simple = _parse_simple_statement(line, start_line_number + ix_line)
        if simple is not None:
            statements.append(simple)
            continue
'''), ('parser.py', '''# Helper function to parse a line match's expression group
''', '''def _parse_simple_statement(line, line_number):
    match_label = _R_SCRIPT_LABEL.match(line)
    if match_label:
        return {'label': match_label['name']}
    for regex, key in ((_R_SCRIPT_JUMP, 'jump'), (_R_SCRIPT_RETURN, 'return')):
        match = regex.match(line)
        if match is None:
            continue
        statement = {'label': match['name']} if key == 'jump' else {}
        if match['expr']:
            statement['expr'] = _parse_match_expression(match, 'expr', line, line_number)
        return {key: statement}
    return None


# Helper function to parse a line match's expression group
'''))

# -- value.py
refactor('va-compare', ('value.py', '''    if left is None:
        return 0 if right is None else -1
    elif right is None:
        return 1
    elif isinstance(left, str) and isinstance(right, str):
        return -1 if left < right else (0 if left == right else 1)
    elif isinstance(left, bool) and isinstance(right, bool):
        return -1 if left < right else (0 if left == right else 1)
    elif isinstance(left, (int, float)) and not isinstance(left, bool) and \\
         isinstance(right, (int, float)) and not isinstance(right, bool):
        return -1 if left < right else (0 if left == right else 1)
    elif isinstance(left, datetime.date) and isinstance(right, datetime.date):
        left_dt = value_normalize_datetime(left)
        right_dt = value_normalize_datetime(right)
        return -1 if left_dt < right_dt else (0 if left_dt == right_dt else 1)
    elif isinstance(left, list) and isinstance(right, list):
        for ix in range(min(len(left), len(right))):
            item_compare = value_compare(left[ix], right[ix])
            if item_compare != 0:
                return item_compare
        return -1 if len(left) < len(right) else (0 if len(left) == len(right) else 1)
    elif isinstance(left, dict) and isinstance(right, dict):
        left_key_values = sorted(left.items())
        right_key_values = sorted(right.items())
        for ix in range(min(len(left_key_values), len(right_key_values))):
            key_compare = value_compare(left_key_values[ix][0], right_key_values[ix][0])
            if key_compare != 0:
                return key_compare
            val_compare = value_compare(left_key_values[ix][1], right_key_values[ix][1])
            if val_compare != 0:
                return val_compare
        return -1 if len(left_key_values) < len(right_key_values) else (0 if len(left_key_values) == len(right_key_values) else 1)

    # Invalid comparison - compare by type name
    type1 = value_type(left) or 'unknown'
    type2 = value_type(right) or 'unknown'
    return -1 if type1 < type2 else (0 if type1 == type2 else 1)
''', '''    if left is None or right is None:
        return int(left is not None) - int(right is not None)
    type1 = value_type(left) or 'unknown'
    type2 = value_type(right) or 'unknown'
    if type1 != type2:
        return _compare(type1, type2)
    if type1 in ('string', 'boolean', 'number'):
        return _compare(left, right)
    if type1 == 'datetime':
        return _compare(value_normalize_datetime(left), value_normalize_datetime(right))
    if type1 == 'array':
        for left_item, right_item in zip(left, right):
            item_compare = value_compare(left_item, right_item)
            if item_compare:
                return item_compare
        return _compare(len(left), len(right))
    if type1 == 'object':
        left_keys, right_keys = sorted(left), sorted(right)
        for left_key, right_key in zip(left_keys, right_keys):
            result = value_compare(left_key, right_key) or value_compare(left[left_key], right[right_key])
            if result != 0:
                return result
        return _compare(len(left_keys), len(right_keys))
    return 0


# Helper to compare two Python values
def _compare(left, right):
    if left < right:
        return -1
    return 0 if left == right else 1
'''))
refactor('va-string-table', ('value.py', '''    if value is None:
        return 'null'
    elif isinstance(value, str):
        return value
    elif isinstance(value, bool):
        return 'true' if value else 'false'
    elif isinstance(value, int):
        return str(value)
    elif isinstance(value, float):
        return f'{value:.0f}' if value.is_integer() else str(value)
    elif''', '''    if isinstance(value, str):
        return value
    if value is None or value is True or value is False:
        return _KEYWORD_STRINGS[value]
    if isinstance(value, int):
        return f'{value}'
    if isinstance(value, float):
        if value.is_integer():
            return format(value, '.0f')
        return repr(value)
    if'''), ('value.py', '''R_NUMBER_CLEANUP =''', '''_KEYWORD_STRINGS = {None: 'null', True: 'true', False: 'false'}
R_NUMBER_CLEANUP ='''), ('value.py', '''    if value is None:
        return False
    elif isinstance(value, str):
        return value != ''
    elif isinstance(value, bool):
        return value
    elif isinstance(value, (int, float)):
        return value != 0
    elif isinstance(value, datetime.date):
        return True
    elif isinstance(value, list):
        return len(value) != 0

    # Everything else is true
    return True
''', '''    if value is None or isinstance(value, (str, bool, int, float, list)):
        return bool(value)
    return True
'''))
refactor('va-args', ('value.py', '''    for ix, fn_arg in enumerate(fn_args):
        arg_type = fn_arg.get('type')

        # Missing argument?
        if ix >= len(args):
            # Last argument array?
            if fn_arg.get('lastArgArray', False):
                args.append([])
                continue

            # Argument default?
            default_value = fn_arg.get('default')
            if default_value is not None:
                args.append(default_value)
                continue

            # Boolean argument?
            if arg_type == 'boolean':
                args.append(False)
                continue

            # Argument nullable?
            if arg_type is None or fn_arg.get('nullable'):
                args.append(None)
                continue

            # Invalid null value...
            raise ValueArgsError(fn_arg['name'], None, error_return_value)
''', '''    ix = -1
    for fn_arg in fn_args:
        ix += 1
        arg_type = fn_arg.get('type')

        # Missing argument?
        if ix >= len(args):
            args.append(_missing_argument(fn_arg, arg_type, error_return_value))
            continue
'''), ('value.py', '''        if ((arg_type == 'number' and (not isinstance(arg_value, (int, float)) or isinstance(arg_value, bool))) or
            (arg_type == 'string' and not isinstance(arg_value, str)) or
            (arg_type == 'array' and not isinstance(arg_value, list)) or
            (arg_type == 'object' and not isinstance(arg_value, dict)) or
            (arg_type == 'datetime' and not isinstance(arg_value, datetime.date)) or
            (arg_type == 'regex' and not isinstance(arg_value, REGEX_TYPE)) or
            (arg_type == 'function' and not callable(arg_value))):
            raise''', '''        if value_type(arg_value) != arg_type:
            raise'''), ('value.py', '''            if ((fn_arg.get('integer') and int(arg_value) != arg_value) or
                (arg_lt is not None and not (arg_value < arg_lt)) or
                (arg_lte is not None and not (arg_value <= arg_lte)) or
                (arg_gt is not None and not (arg_value > arg_gt)) or
                (arg_gte is not None and not (arg_value >= arg_gte))):
                raise ValueArgsError(fn_arg['name'], arg_value, error_return_value)
''', '''            valid = True
            if fn_arg.get('integer'):
                valid = int(arg_value) == arg_value
            if valid and arg_lt is not None:
                valid = arg_value < arg_lt
            if valid and arg_lte is not None:
                valid = arg_value <= arg_lte
            if valid and arg_gt is not None:
                valid = arg_value > arg_gt
            if valid and arg_gte is not None:
                valid = arg_value >= arg_gte
            if not valid:
                raise ValueArgsError(fn_arg['name'], arg_value, error_return_value)
'''), ('value.py', '''class ValueArgsError(Exception):''', '''# Helper to get a missing argument's value
def _missing_argument(fn_arg, arg_type, error_return_value):
    if fn_arg.get('lastArgArray'):
        return []
    if fn_arg.get('default') is not None:
        return fn_arg['default']
    if arg_type == 'boolean':
        return False
    if arg_type is not None and not fn_arg.get('nullable'):
        raise ValueArgsError(fn_arg['name'], None, error_return_value)
    return None


class ValueArgsError(Exception):'''))

# -- options.py / bare.py / model.py / data.py
refactor('da-helpers', ('data.py', '''    eval_options = options
    if variables is not None:
        eval_options = dict(options) if options is not None else {}
        if 'globals' in eval_options:
            eval_options['globals'] = {**eval_options['globals'], **variables}
        else:
            eval_options['globals'] = variables

    # Compute the calculated field''', '''    eval_options = _evaluation_options(options, variables)

    # Compute the calculated field'''), ('data.py', '''    eval_options = options
    if variables is not None:
        eval_options = dict(options) if options is not None else {}
        if 'globals' in eval_options:
            eval_options['globals'] = {**eval_options['globals'], **variables}
        else:
            eval_options['globals'] = variables

    # Filter the data
    for row in data:
        if value_boolean(evaluate_expression(filter_expr, eval_options, row)):
            result.append(row)
''', '''    eval_options = _evaluation_options(options, variables)

    # Filter the data
    result = [row for row in data if value_boolean(evaluate_expression(filter_expr, eval_options, row))]
'''), ('data.py', '''    result = []
    evaluate_expression = _import''', '''    evaluate_expression = _import'''), ('data.py', '''# Helper to update the script's statement count''', '''# Helper to create the evaluation options
def _evaluation_options(options, variables):
    if variables is None:
        return options
    eval_options = {} if options is None else options.copy()
    eval_options['globals'] = {**eval_options.get('globals', {}), **variables}
    return eval_options


# Helper to update the script's statement count'''), ('data.py', '''    # Bucket rows by category
    category_rows = {}
    category_order = []
    for row in data:
        category_key = '' if category_fields is None else _value_key([row.get(field) for field in category_fields])
        if category_key not in category_rows:
            category_rows[category_key] = []
            category_order.append(category_key)
        category_rows[category_key].append(row)

    # Take only the top rows
    data_top = []
    for category_key in category_order:
        category_key_rows = category_rows[category_key]
        for ix_row in range(min(int(count), len(category_key_rows))):
            data_top.append(category_key_rows[ix_row])

    return data_top
''', '''    category_rows = {}
    for row in data:
        category_key = None if category_fields is None else _value_key([row.get(field) for field in category_fields])
        category_rows.setdefault(category_key, []).append(row)
    return [row for rows in category_rows.values() for row in rows[:max(int(count), 0)]]
'''))
refactor('da-join', ('data.py', '''    for row in left_data:
        for field_name in row:
            if field_name not in left_names:
                left_names[field_name] = field_name
    for row in right_data:
        for field_name in row:
            if field_name not in right_names_raw:
                right_names_raw[field_name] = field_name
    for field_name in right_names_raw:
        if field_name not in left_names:
            right_names[field_name] = field_name
        else:
            ix_unique = 2
            unique_name = f'{field_name}{ix_unique}'
            while unique_name in left_names or unique_name in right_names or unique_name in right_names_raw:
                ix_unique += 1
                unique_name = f'{field_name}{ix_unique}'
            right_names[field_name] = unique_name
''', '''    left_names.update((field_name, field_name) for row in left_data for field_name in row)
    right_names_raw = list(dict.fromkeys(field_name for row in right_data for field_name in row))
    for field_name in right_names_raw:
        unique_name = field_name
        if field_name in left_names:
            for ix_unique in itertools.count(2):
                unique_name = f'{field_name}{ix_unique}'
                if not any(unique_name in names for names in (left_names, right_names, right_names_raw)):
                    break
        right_names[field_name] = unique_name
'''), ('data.py', '''    right_names_raw = {}
    right_names = {}''', '''    right_names = {}'''), ('data.py', '''import importlib
''', '''import importlib
import itertools
'''), ('data.py', '''        category_key = _value_key(evaluate_expression(right_expression, eval_options, right_row))
        if category_key not in right_category_rows:
            right_category_rows[category_key] = []
        right_category_rows[category_key].append(right_row)
''', '''        right_category_rows[_value_key(evaluate_expression(right_expression, eval_options, right_row))].append(right_row)
'''), ('data.py', '''    right_category_rows = {}
''', '''    right_category_rows = collections.defaultdict(list)
'''), ('data.py', '''import datetime
import functools
''', '''import collections
import datetime
import functools
'''), ('data.py', '''                join_row = dict(left_row)
                for right_name, right_value in right_row.items():
                    join_row[right_names[right_name]] = right_value
                data.append(join_row)
''', '''                data.append({**left_row, **{right_names[name]: value for name, value in right_row.items()}})
'''))
refactor('da-aggregate', ('data.py', '''            if len(measure_values) == 0:
                aggregate_row[field] = None
            elif func == 'count':
                aggregate_row[field] = len(measure_values)
            elif func == 'max':
                aggregate_row[field] = max(measure_values, key=functools.cmp_to_key(value_compare))
            elif func == 'min':
                aggregate_row[field] = min(measure_values, key=functools.cmp_to_key(value_compare))
            elif func == 'sum':
                aggregate_row[field] = _sum_values(measure_values)
            elif func == 'stddev':
                aggregate_row[field] = statistics.pstdev(measure_values)
            else: # func == 'average'
                aggregate_row[field] = statistics.mean(measure_values)
''', '''            aggregate_row[field] = _AGGREGATE_FUNCTIONS[func](measure_values) if measure_values else None
'''), ('data.py', '''# The aggregation model
''', '''_VALUE_COMPARE_KEY = functools.cmp_to_key(value_compare)


_AGGREGATE_FUNCTIONS = {
    'average': statistics.mean,
    'count': len,
    'max': functools.partial(max, key=_VALUE_COMPARE_KEY),
    'min': lambda values: min(values, key=_VALUE_COMPARE_KEY),
    'stddev': statistics.pstdev,
    'sum': _sum_values
}


# The aggregation model
'''), ('data.py', '''    for sort in sorts:
        field = sort[0]
        desc = sort[1] if len(sort) > 1 else False
        value1 = row1.get(field)
        value2 = row2.get(field)
        result = value_compare(value2, value1) if desc else value_compare(value1, value2)
        if result != 0:
            return result
    return 0
''', '''    for field, *desc in sorts:
        values = row1.get(field), row2.get(field)
        result = value_compare(*(reversed(values) if desc and desc[0] else values))
        if result:
            return result
    return 0
'''))
refactor('mo-lint-helpers', ('model.py', '''# Helper function to determine if an expression statement's expression is pointless
def _is_pointless_expression(expr):
    expr_key = next(iter(expr.keys()))
    if expr_key == 'function':
        return False
    elif expr_key == 'binary':
        return _is_pointless_expression(expr['binary']['left']) and _is_pointless_expression(expr['binary']['right'])
    elif expr_key == 'unary':
        return _is_pointless_expression(expr['unary']['expr'])
    elif expr_key == 'group':
        return _is_pointless_expression(expr['group'])
    return True
''', '''# Helper function to determine if an expression statement's expression is pointless
def _is_pointless_expression(expr):
    return not any('function' in sub_expr for sub_expr in _sub_expressions(expr))


# Helper function to iterate an expression and its sub-expressions in order
def _sub_expressions(expr):
    yield expr
    if 'binary' in expr:
        yield from _sub_expressions(expr['binary']['left'])
        yield from _sub_expressions(expr['binary']['right'])
    elif 'unary' in expr:
        yield from _sub_expressions(expr['unary']['expr'])
    elif 'group' in expr:
        yield from _sub_expressions(expr['group'])
'''), ('model.py', '''            if 'name' in statement['expr']:
                if statement['expr']['name'] not in assigns:
                    assigns[statement['expr']['name']] = ix_statement
''', '''            if 'name' in statement['expr']:
                assigns.setdefault(statement['expr']['name'], ix_statement)
'''))
refactor('mo-lint-labels', ('model.py', '''            # Unused function labels?
            for label in sorted(fn_labels_defined.keys()):
                if label not in fn_labels_used:
                    warnings.append(f'Unused label "{label}" in function "{function_name}" (index {fn_labels_defined[label]})')

            # Unknown function labels?
            for label in sorted(fn_labels_used.keys()):
                if label not in fn_labels_defined:
                    warnings.append(f'Unknown label "{label}" in function "{function_name}" (index {fn_labels_used[label]})')
''', '''            # Unused and unknown function labels?
            warnings.extend(
                f'Unused label "{label}" in function "{function_name}" (index {fn_labels_defined[label]})'
                for label in sorted(set(fn_labels_defined) - set(fn_labels_used))
            )
            warnings.extend(
                f'Unknown label "{label}" in function "{function_name}" (index {fn_labels_used[label]})'
                for label in sorted(fn_labels_used.keys() - fn_labels_defined.keys())
            )
'''), ('model.py', '''            if args is not None:
                args_defined = set()
                for arg in args:
                    # Duplicate argument?
                    if arg in args_defined:
                        warnings.append(f'Duplicate argument "{arg}" of function "{function_name}" (index {ix_statement})')
                    else:
                        args_defined.add(arg)

                        # Unused argument?
                        if arg not in fn_var_uses:
                            warnings.append(f'Unused argument "{arg}" of function "{function_name}" (index {ix_statement})')
''', '''            for ix_arg, arg in enumerate(args or ()):
                if arg in args[:ix_arg]:
                    warnings.append(f'Duplicate argument "{arg}" of function "{function_name}" (index {ix_statement})')
                elif arg not in fn_var_uses:
                    warnings.append(f'Unused argument "{arg}" of function "{function_name}" (index {ix_statement})')
'''))
refactor('ba-cli', ('bare.py', '''            if isinstance(result, (int, float)) and int(result) == result and 0 <= result <= 255:
                status_code = int(result)
            else:
                status_code = 1 if value_boolean(result) else 0
''', '''            status_code = _status_code(result)
'''), ('bare.py', '''def _fetch_include(request):
    # Is this a bare system include?
    url = request['url']
    if url.startswith(_FETCH_INCLUDE_PREFIX):
        path = url[len(_FETCH_INCLUDE_PREFIX):]
        with importlib.resources.files('bare_script.include').joinpath(path).open('rb') as cm_inc:
            return cm_inc.read().decode(encoding='utf-8')

    return fetch_read_write(request)
''', '''def _status_code(result):
    if isinstance(result, (int, float)) and int(result) == result and 0 <= result <= 255:
        return int(result)
    return int(value_boolean(result))


def _fetch_include(request):
    url = request['url']
    if not url.startswith(_FETCH_INCLUDE_PREFIX):
        return fetch_read_write(request)
    include_files = importlib.resources.files('bare_script.include')
    return include_files.joinpath(url.removeprefix(_FETCH_INCLUDE_PREFIX)).read_bytes().decode('utf-8')
'''))
refactor('di-helper', ('include/diff.bare', '''    # Split the left into an array of lines
    if systemType(left) == 'array':
        leftLines = arrayNew()
        for leftPart in left:
            arrayExtend(leftLines, regexSplit(diffRegexLineSplit, leftPart))
        endfor
    else:
        leftLines = regexSplit(diffRegexLineSplit, left)
    endif

    # Split the right into an array of lines
    if systemType(right) == 'array':
        rightLines = arrayNew()
        for rightPart in right:
            arrayExtend(rightLines, regexSplit(diffRegexLineSplit, rightPart))
        endfor
    else:
        rightLines = regexSplit(diffRegexLineSplit, right)
    endif
''', '''    leftLines = diffSplitLines(left)
    rightLines = diffSplitLines(right)
'''), ('include/diff.bare', '''# Regex for splitting lines
''', '''# Helper to split a string or an array of strings into lines
function diffSplitLines(text):
    lines = arrayNew()
    for part in if(systemType(text) == 'array', text, arrayNew(text)):
        arrayExtend(lines, regexSplit(diffRegexLineSplit, part))
    endfor
    return lines
endfunction


# Regex for splitting lines
'''), ('include/diff.bare', '''        # Look ahead to find next matching point
        foundMatch = false
        ixLeftTmp = ixLeft
        while ixLeftTmp < leftLength:
            ixRightTmp = ixRight
            while ixRightTmp < rightLength:
                if arrayGet(leftLines, ixLeftTmp) == arrayGet(rightLines, ixRightTmp):
                    foundMatch = true
                    break
                endif
                ixRightTmp = ixRightTmp + 1
            endwhile
            if foundMatch:
                break
            endif
            ixLeftTmp = ixLeftTmp + 1
        endwhile
''', '''        # Look ahead to find next matching point
        ixLeftTmp = ixLeft
        ixRightTmp = -1
        while ixLeftTmp < leftLength && ixRightTmp == -1:
            ixRightTmp = arrayIndexOf(rightLines, arrayGet(leftLines, ixLeftTmp), ixRight)
            ixLeftTmp = if(ixRightTmp == -1, ixLeftTmp + 1, ixLeftTmp)
        endwhile
        foundMatch = (ixRightTmp != -1)
'''))


# -- library.py
refactor('li-index', ('library.py', '''    # Value function?
    if value_type(value) == 'function':
        for ix in range(int(index), len(array)):
            if value_boolean(value([array[ix]], options)):
                return ix
    else:
        for ix in range(int(index), len(array)):
            if value_compare(array[ix], value) == 0:
                return ix

    return -1

_ARRAY_INDEX_OF_ARGS''', '''    return _find_index(array, value, range(int(index), len(array)), options)

_ARRAY_INDEX_OF_ARGS'''), ('library.py', '''    # Value function?
    if value_type(value) == 'function':
        for ix in range(int(index), -1, -1):
            if value_boolean(value([array[ix]], options)):
                return ix
    else:
        for ix in range(int(index), -1, -1):
            if value_compare(array[ix], value) == 0:
                return ix

    return -1
''', '''    return _find_index(array, value, reversed(range(int(index) + 1)), options)
'''), ('library.py', '''#
# Array functions
#
''', '''# Helper to find the first of some array indexes whose value matches
def _find_index(array, value, indexes, options):
    if callable(value):
        matches = lambda item: value_boolean(value([item], options)) # pylint: disable=unnecessary-lambda-assignment
    else:
        matches = lambda item: value_compare(item, value) == 0 # pylint: disable=unnecessary-lambda-assignment
    for ix in indexes:
        if matches(array[ix]):
            return ix
    return -1


#
# Array functions
#
'''), ('library.py', '''    return list(value for _ in range(int(size)))
''', '''    return [value] * int(size)
'''), ('library.py', '''    if len(array) == 0:
        raise ValueArgsError('array', array)

    return array.pop()
''', '''    if not array:
        raise ValueArgsError('array', array)

    result = array[-1]
    del array[-1]
    return result
'''))
refactor('li-minmax', ('library.py', '''    result = None
    is_first = True
    for value in values:
        if is_first:
            result = value
            is_first = False
        elif value_compare(value, result) > 0:
            result = value
    return result
''', '''    return functools.reduce(lambda result, value: value if value_compare(value, result) > 0 else result, values) if values else None
'''), ('library.py', '''    result = None
    is_first = True
    for value in values:
        if is_first:
            result = value
            is_first = False
        elif value_compare(value, result) < 0:
            result = value
    return result
''', '''    if not values:
        return None
    result, *others = values
    for value in others:
        if value_compare(value, result) < 0:
            result = value
    return result
'''), ('library.py', '''    if compare_fn is None:
        array[:] = sorted(array, key=functools.cmp_to_key(value_compare))
    else:
        array[:] = sorted(array, key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))
    return array
''', '''    compare = value_compare
    if compare_fn is not None:
        def compare(left, right): # pylint: disable=function-redefined
            return compare_fn([left, right], options)
    result = list(array)
    result.sort(key=functools.cmp_to_key(compare))
    array[:] = result
    return array
'''))
refactor('li-slice', ('library.py', '''    if end is None:
        end = len(array)
    if start > len(array):
        raise ValueArgsError('start', start)
    if end > len(array):
        raise ValueArgsError('end', end)

    return array[int(start):int(end)]
''', '''    begin, end = _slice_range(array, start, end)
    return array[begin:end]
'''), ('library.py', '''    end = end if end is not None else len(string)
    if start > len(string):
        raise ValueArgsError('start', start)
    if end > len(string):
        raise ValueArgsError('end', end)

    return string[int(start):int(end)]
''', '''    return string[slice(*_slice_range(string, start, end))]
'''), ('library.py', '''#
# Array functions
#
''', '''# Helper to validate a slice
def _slice_range(values, start, end):
    length = len(values)
    for name, value in (('start', start), ('end', end)):
        if value is not None and value > length:
            raise ValueArgsError(name, value)
    return int(start), length if end is None else int(end)


#
# Array functions
#
'''))
refactor('li-object', ('library.py', '''    object_ = {}
    for ix in range(0, len(args), 2):
        key = args[ix]
        value = args[ix + 1] if ix + 1 < len(args) else None
        if value_type(key) != 'string':
            raise ValueArgsError('keyValues', key)
        object_[key] = value
    return object_
''', '''    object_ = {}
    items = iter(args)
    for key in items:
        if not isinstance(key, str):
            raise ValueArgsError('keyValues', key)
        object_[key] = next(items, None)
    return object_
'''), ('library.py', '''    if key in object_:
        del object_[key]
''', '''    object_.pop(key, None)
'''), ('library.py', '''    object_.update(object2)
    return object_
''', '''    for key, value in list(object2.items()):
        object_[key] = value
    return object_
'''), ('library.py', '''    return object_.get(key, default_value)
''', '''    return object_[key] if key in object_ else default_value
'''), ('library.py', '''    return list(object_.keys())
''', '''    return [*object_]
'''), ('library.py', '''    groups = {'0': match[0]}
    groups.update((f'{match_ix + 1}', match_text) for match_ix, match_text in enumerate(match.groups()))
    groups.update(match.groupdict())
    return {
        'index': match.start(),
        'input': match.string,
        'groups': groups
    }
''', '''    groups = {str(ix): match.group(ix) for ix in range(len(match.groups()) + 1)}
    return {
        'index': match.span()[0],
        'input': match.string,
        'groups': {**groups, **match.groupdict()}
    }
'''), ('library.py', '''    flags_mask = 0
    if flags is not None:
        for flag in flags:
            if flag == 'i':
                flags_mask = flags_mask | re.I
            elif flag == 'm':
                flags_mask = flags_mask | re.M
            elif flag == 's':
                flags_mask = flags_mask | re.S
            else:
                return None
''', '''    flags_mask = 0
    for flag in flags or '':
        if flag not in _REGEX_NEW_FLAGS:
            return None
        flags_mask |= _REGEX_NEW_FLAGS[flag]
'''), ('library.py', '''_R_REGEX_NEW_NAMED =''', '''_REGEX_NEW_FLAGS = {'i': re.I, 'm': re.M, 's': re.S}
_R_REGEX_NEW_NAMED ='''), ('library.py', '''    for code in char_codes:
        if value_type(code) != 'number' or int(code) != code or code < 0:
            raise ValueArgsError('char_codes', code)

    return ''.join(chr(int(code)) for code in char_codes)
''', '''    chars = []
    for code in char_codes:
        if value_type(code) != 'number' or int(code) != code or code < 0:
            raise ValueArgsError('char_codes', code)
    for code in char_codes:
        chars.append(chr(int(code)))
    return ''.join(chars)
'''))
refactor('li-datetime', ('library.py', '''    # Adjust millisecond
    if millisecond < 0 or millisecond >= 1000:
        extra_seconds = millisecond // 1000
        millisecond -= extra_seconds * 1000
        second += extra_seconds

    # Adjust seconds
    if second < 0 or second >= 60:
        extra_minutes = second // 60
        second -= extra_minutes * 60
        minute += extra_minutes

    # Adjust minutes
    if minute < 0 or minute >= 60:
        extra_hours = minute // 60
        minute -= extra_hours * 60
        hour += extra_hours

    # Adjust hours
    if hour < 0 or hour >= 24:
        extra_days = hour // 24
        hour -= extra_days * 24
        day += extra_days

    # Adjust month
    if month < 1 or month > 12:
        extra_years = (month - 1) // 12
        month -= extra_years * 12
        year += extra_years
''', '''    second, millisecond = _carry(second, millisecond, 1000)
    minute, second = _carry(minute, second, 60)
    hour, minute = _carry(hour, minute, 60)
    day, hour = _carry(day, hour, 24)
    year, month = _carry(year, month - 1, 12)
    month += 1
'''), ('library.py', '''    # Adjust day
    if day < 1:
        while day < 1:
            year = year if month != 1 else year - 1
            month = month - 1 if month != 1 else 12
            _, month_days = calendar.monthrange(int(year), int(month))
            day += month_days
    elif day > 28:
        _, month_days = calendar.monthrange(int(year), int(month))
        while day > month_days:
            day -= month_days
            year = year if month != 12 else year + 1
            month = month + 1 if month != 12 else 1
            _, month_days = calendar.monthrange(int(year), int(month))
''', '''    while day < 1:
        month -= 1
        if month == 0:
            year, month = year - 1, 12
        day += calendar.monthrange(int(year), int(month))[1]
    while day > 28 and day > (month_days := calendar.monthrange(int(year), int(month))[1]):
        day -= month_days
        month += 1
        if month == 13:
            year, month = year + 1, 1
'''), ('library.py', '''def _datetime_new(args''', '''def _carry(high, low, base):
    extra, low = divmod(low, base)
    return high + extra, low


def _datetime_new(args'''), ('value.py', '''    m_date = _R_DATE.match(text)
    if m_date is not None:
        year = int(m_date.group('year'))
        month = int(m_date.group('month'))
        day = int(m_date.group('day'))
        try:
            return datetime.datetime(year, month, day)
        except ValueError:
            return None
    elif''', '''    if _R_DATE.match(text):
        try:
            return datetime.datetime(*map(int, text.split('-')))
        except ValueError:
            return None
    if'''))
refactor('op-url', ('options.py', '''    # URL?
    if re.match(_R_URL, url):
        return url

    # Absolute POSIX path? If so, convert to OS path
    if url.startswith('/'):
        return str(Path(url))

    # URL is relative POSIX path...

    # Is relative-file a URL?
    if re.match(_R_URL, file_):
        return f'{file_[:file_.rfind("/") + 1]}{url}'

    # The relative-file is an OS path...
    return os.path.join(os.path.dirname(file_), str(Path(url)))
''', '''    if _is_url(url):
        return url
    if not url.startswith('/'):
        if _is_url(file_):
            base, slash, _ = file_.rpartition('/')
            return base + slash + url
        return os.path.join(os.path.split(file_)[0], str(Path(url)))
    return str(Path(url))


def _is_url(text):
    return _R_URL.match(text) is not None
'''))
refactor('va-json', ('value.py', '''    if isinstance(value, float):
        return int(value) if value.is_integer() else value
    elif isinstance(value, list):
        return [_json_numbers(item) for item in value]
    elif isinstance(value, dict):
        return {key: _json_numbers(item) for key, item in value.items()}
    return value
''', '''    match value:
        case float() if value.is_integer():
            return int(value)
        case list():
            return list(map(_json_numbers, value))
        case dict():
            return dict((key, _json_numbers(value[key])) for key in value)
        case _:
            return value
'''), ('value.py', '''    multiplier = 10.0 ** digits
    return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
''', '''    multiplier = 10.0 ** digits
    half = 0.5 if value >= 0 else -0.5
    scaled = int(value * multiplier + half)
    return scaled / multiplier
'''), ('value.py', '''    try:
        # Digit separators are not part of a number
        if '_' in text:
            return None

        value = float(text)
        if math.isnan(value) or math.isinf(value):
            return None
        return value
    except ValueError:
        return None
''', '''    if '_' in text:
        return None
    try:
        value = float(text)
    except ValueError:
        value = math.nan
    return value if math.isfinite(value) else None
'''), ('value.py', '''        return int(text, radix) if '_' not in text else None
    except ValueError:
        return None
''', '''        if '_' not in text:
            return int(text, base=radix)
    except ValueError:
        pass
    return None
'''))


# the checks that can be affected by an edit of a file
USED = {
    'runtime.py': 'C01 C03 C04 C05 C07 C08 C09 C15 C17 C18 C19 C20',
    'parser.py': 'C01 C02 C04 C06 C07 C08 C10 C17 C18 C20',
    'value.py': 'C03 C05 C11 C12 C13 C14 C15 C16 C19',
    'data.py': 'C05 C09 C19',
    'model.py': 'C17 C18 C20',
    'bare.py': 'C17 C20',
    'options.py': 'C17 C20',
    'library.py': 'C05 C09 C11 C12 C13 C14 C15 C16 C19 C20',
    'include/diff.bare': 'C20',
}


def edit(text, old, new):
    """The text with the edit made: a replaced piece of text, or a tuple of top-level functions replaced by new text; None: does not apply."""
    if isinstance(old, str):
        return text.replace(old, new, 1) if old in text else None
    lines = text.splitlines(keepends=True)
    spans = {}
    for n in ast.parse(text).body:
        for x in [getattr(n, 'name', None)] + [t.id for t in getattr(n, 'targets', []) if isinstance(t, ast.Name)]:
            spans[x] = (min([n.lineno] + [d.lineno for d in getattr(n, 'decorator_list', [])]) - 1, n.end_lineno)
    if any(x not in spans for x in old):
        return None
    cuts = sorted([(*spans[x], x == old[0]) for x in old], reverse=True)
    for a, b, first in cuts:
        lines[a:b] = [new.strip('\n') + '\n'] if first else []
    return ''.join(lines)


def applies(w, name):
    texts = {}
    for path, old, new in REFACTORS[name]:
        s = texts.get(path) or (w / 'src/bare_script' / path).read_text()
        s = edit(s, old, new)
        if s is None:
            return False
        texts[path] = s
    try:
        for s in texts.values():
            ast.parse(s)
    except SyntaxError:
        return False
    for path, s in texts.items():
        (w / 'src/bare_script' / path).write_text(s)
    return True


def groups(pats, props):
    left = [n for n in REFACTORS if any(n.startswith(x) for x in pats)]
    while left:
        t = pathlib.Path(tempfile.mkdtemp(prefix='refactor'))
        w = t / 'w'
        subprocess.run(['git', 'clone', '-q', '/repo', str(w)], check=True)
        names = [n for n in left if applies(w, n)]
        if not names:
            print('DO NOT APPLY', *left)
            subprocess.run(['/bin/rm', '-rf', str(t)])
            break
        left = [n for n in left if n not in names]
        print('GROUP', *names, flush=True)
        r = tests(w)
        print(r.stdout.strip().splitlines()[-1], flush=True)
        for p in props:
            report('group', p, t, w)
        shutil.rmtree(t)


def tests(w):
    return subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', str(w / 'src/tests')], cwd=w, capture_output=True, text=True,
                          env=dict(os.environ, PYTHONPATH=str(w / 'src'), PYTHONDONTWRITEBYTECODE='1', TZ='UTC'))


def report(name, p, t, w):
    c = subprocess.run([sys.executable, str(V / 'run.py'), p], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=str(w), VERIF_EVIDENCE=str(t)))
    line = next((x for x in c.stdout.splitlines() if 'obligations' in x), '')
    first = [x.strip() for x in c.stdout.splitlines() if x.strip().startswith(('rule:', 'cell:', 'detail:'))][:3] if c.returncode else ''
    print(name, p, c.returncode, line, *first, c.stderr[-500:] if c.returncode not in (0, 1) else '', flush=True)


def copy(name):
    t = pathlib.Path(tempfile.mkdtemp(prefix='refactor'))
    w = t / 'w'
    subprocess.run(['git', 'clone', '-q', '/repo', str(w)], check=True)
    for path, old, new in REFACTORS[name]:
        p = w / 'src/bare_script' / path
        s = edit(p.read_text(), old, new)
        if s is None:
            raise SystemExit(f'{name}: not in {path}: {old[:200]}')
        p.write_text(s)
    return t, w


def main():
    cmd, *rest = sys.argv[1:]
    props = next((x[8:].split(',') for x in rest if x.startswith('--props=')), [c['property'] for c in json.load(open(V / 'MANIFEST.json'))['checks']])
    pats = [x for x in rest if not x.startswith('--')] or ['']
    if cmd == 'group':
        return groups(pats, props)
    for name in REFACTORS:
        if not any(name.startswith(x) for x in pats):
            continue
        t, w = copy(name)
        try:
            if cmd == 'test':
                r = tests(w)
                print(name, r.stdout.strip().splitlines()[-1], flush=True)
                if r.returncode:
                    print(r.stdout[-3000:])
            else:
                touched = set()
                for path, _, _ in REFACTORS[name]:
                    touched |= set(USED.get(path, '').split()) or set(props)
                for p in props if any(x.startswith('--props=') for x in rest) else sorted(touched):
                    report(name, p, t, w)
        finally:
            shutil.rmtree(t)


sys.modules['refactors'] = sys.modules[__name__]
import rewrites # noqa: E402,F401 - whole functions rewritten

if __name__ == '__main__':
    main()
