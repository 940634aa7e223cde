"""The planted bugs (development data; no check reads this)"""

SEEDS = []


def seed(id_, prop, edits, demo, needs, breaks):
    SEEDS.append({'id': id_, 'property': prop, 'edits': edits, 'demo': demo, 'needs': needs, 'breaks': breaks})


# ---------------------------------------------------------------------------------------------------- C03
seed('c03-or-empty-array', 'C03', [('value.py', """        return len(value) != 0
""", """        return len(value) != 0 and any(item is not None for item in value)
""")], """
from bare_script import evaluate_expression, parse_expression
assert evaluate_expression(parse_expression('a || 7'), {'globals': {'a': [None]}}) == [None]
""", "an array holding only nulls as the operand of &&, || or if()", "a non-empty array must be truthy, so || returns it; an array of nulls is treated as false")

seed('c03-alias-lastindexof', 'C03', [('library.py', """    'lastIndexOf': 'stringLastIndexOf',
""", """    'lastIndexOf': 'stringIndexOf',
""")], """
from bare_script import evaluate_expression, parse_expression
assert evaluate_expression(parse_expression("lastIndexOf('abcabc', 'b')")) == 4
""", "expression mode, lastIndexOf on a string holding the text twice", "the expression built-in lastIndexOf no longer behaves as stringLastIndexOf")

seed('c03-null-left', 'C03', [('runtime.py', """        left_value = evaluate_expression(expr['binary']['left'], options, locals_, builtins)

""", """        left_value = evaluate_expression(expr['binary']['left'], options, locals_, builtins)
        if bin_op in ('*', '/') and left_value is None:
            return None

""")], """
from bare_script import execute_script, parse_script
calls = []
def note(args, options):
    calls.append(args[0])
    return args[0]
execute_script(parse_script("return missing * note('x')"), {'globals': {'note': note}})
assert calls == ['x'], calls
""", "a null left operand of * or / and a right operand with a side effect", "the right operand is not evaluated")

seed('c03-concat-order', 'C03', [('runtime.py', """        right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
        if bin_op == '+':
""", """        right_expr = expr['binary']['right']
        right_value = left_value if right_expr is expr['binary']['left'] or right_expr == expr['binary']['left'] else \\
            evaluate_expression(right_expr, options, locals_, builtins)
        if bin_op == '+':
""")], """
from bare_script import execute_script, parse_script
n = [0]
def tick(args, options):
    n[0] += 1
    return n[0]
assert execute_script(parse_script('return tick() + tick()'), {'globals': {'tick': tick}}) == 3
""", "the same side-effecting sub-expression on both sides of an operator", "the right operand is evaluated zero times")

# ---------------------------------------------------------------------------------------------------- C02
seed('c02-reorder-table', 'C02', [('parser.py', """    '>=': {'==', '!=', '&&', '||'},
""", """    '>=': {'==', '&&', '||'},
""")], """
from bare_script import parse_expression
V = lambda n: {'variable': n}
B = lambda o, l, r: {'binary': {'op': o, 'left': l, 'right': r}}
assert parse_expression('a != b >= c') == B('!=', V('a'), B('>=', V('b'), V('c')))
""", "a >= following a !=", "the precedence of >= over != is lost")

seed('c02-reorder-depth', 'C02', [('parser.py', """        while 'binary' in reorder_expr['binary']['right'] and reorder_expr['binary']['right']['binary']['op'] in BINARY_REORDER[bin_op]:
            reorder_expr = reorder_expr['binary']['right']
""", """        for _ in range(3):
            if 'binary' in reorder_expr['binary']['right'] and reorder_expr['binary']['right']['binary']['op'] in BINARY_REORDER[bin_op]:
                reorder_expr = reorder_expr['binary']['right']
""")], """
from bare_script import parse_expression
V = lambda n: {'variable': n}
B = lambda o, l, r: {'binary': {'op': o, 'left': l, 'right': r}}
got = parse_expression('a || b && c == d < e + f * g')
want = B('||', V('a'), B('&&', V('b'), B('==', V('c'), B('<', V('d'), B('+', V('e'), B('*', V('f'), V('g')))))))
assert got == want, got
""", "five nested precedence levels on the right spine", "the right spine is followed to a bounded depth only")

seed('c02-missing-arg', 'C02', [('parser.py', """            # Get the argument
            arg_expr, next_arg_text = _parse_binary_expression(arg_text)
""", """            # Ignore a trailing separator
            if args and _R_EXPR_FUNCTION_CLOSE.match(arg_text):
                continue

            # Get the argument
            arg_expr, next_arg_text = _parse_binary_expression(arg_text)
""")], """
from bare_script import parse_expression, BareScriptParserError
try:
    parse_expression('f(a,)')
except BareScriptParserError:
    pass
else:
    raise AssertionError('f(a,) accepted')
""", "a call with a trailing comma", "malformed text is silently re-interpreted as a one-argument call")

seed('c02-group-close', 'C02', [('parser.py', """        if match_group_close is None:
            raise BareScriptParserError('Unmatched parenthesis', expr_text)
""", """        if match_group_close is None:
            if next_text == '' and 'group' in expr:
                return [expr, next_text]
            raise BareScriptParserError('Unmatched parenthesis', expr_text)
""")], """
from bare_script import parse_expression, BareScriptParserError
try:
    parse_expression('1 + ((a)')
except BareScriptParserError:
    pass
else:
    raise AssertionError('accepted')
""", "nested parentheses whose outer one is never closed", "an unbalanced parenthesis is accepted")

# ---------------------------------------------------------------------------------------------------- C01
seed('c01-break-in-else', 'C01', [('parser.py', """        match_break = _R_SCRIPT_BREAK.match(line)
        if match_break:
            # Get the loop definition
            label_def_depth = function_label_def_depth if function_def is not None else 0
            ix_label_def = next((i for i, d in reversed(list(enumerate(label_defs))) if 'if' not in d), -1)
""", """        match_break = _R_SCRIPT_BREAK.match(line)
        if match_break:
            # Get the loop definition
            label_def_depth = function_label_def_depth if function_def is not None else 0
            ix_label_def = next((i for i, d in reversed(list(enumerate(label_defs))) if 'if' not in d or d['if']['hasElse']), -1)
""")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script('''
n = 0
while true:
    n = n + 1
    if n < 3:
        m = n
    else:
        break
    endif
    if n > 9:
        return 'missed'
    endif
endwhile
return n
''')) == 3
""", "a break statement in an else branch", "break binds to the enclosing if instead of the loop")

seed('c01-elif-dead-jump', 'C01', [('parser.py', """            statements.extend([
                {'jump': {'label': ifthen['done']}},
                {'label': prev_label},
                {'jump': ifthen['jump']}
            ])
""", """            if 'jump' not in statements[-1]:
                statements.append({'jump': {'label': ifthen['done']}})
            statements.extend([
                {'label': prev_label},
                {'jump': ifthen['jump']}
            ])
""")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script('''
r = 'none'
if 1 == 1:
    # nothing to do
elif 2 == 2:
    r = 'second'
endif
return r
''')) == 'none'
""", "an if or elif branch with an empty body (or one that ends with a conditional jump) before an elif", "two branches of one chain can run")

seed('c01-label-reset', 'C01', [('parser.py', """            function_def = None
            function_label_def_depth = None
            continue
""", """            function_def = None
            function_label_def_depth = None
            label_index = len(label_defs)
            continue
""")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script('''
r = ''
if r == 'a':
    r = 'b'
endif
function f():
    return 1
endfunction
if r == 'x':
    r = 'c'
endif
n = 0
while n < 2:
    n = n + 1
    r = r + 'w'
    if n == 20:
        return 'again'
    endif
endwhile
if r == 'zzz':
    r = 'd'
endif
return r
'''), {'maxStatements': 1000}) == 'ww'
""", "structured statements in the global scope both before and after a function definition", "label names are reused in one scope, so jumps reach the wrong construct")

# ---------------------------------------------------------------------------------------------------- C07
seed('c07-dead-continue', 'C07', [('parser.py', """            loop_def['hasContinue'] = True
            statements.append({'jump': {'label': loop_def['continue']}})
            continue
""", """            loop_def['hasContinue'] = True
            if not statements or 'expr' in statements[-1].get('jump', {'expr': None}):
                statements.append({'jump': {'label': loop_def['continue']}})
            continue
""")], """
from bare_script import lint_script, parse_script
assert not [w for w in lint_script(parse_script('''
for v in arrayNew(1):
    break
    continue
endfor
''')) if 'label' in w]
""", "an unreachable continue directly after a break in the same loop", "the continue label is emitted but no jump targets it")

seed('c07-break-depth', 'C07', [('parser.py', """            if ix_label_def < label_def_depth:
                raise BareScriptParserError('Continue statement outside of loop', line, 1, start_line_number + ix_line)
""", """            if ix_label_def < min(label_def_depth, 1):
                raise BareScriptParserError('Continue statement outside of loop', line, 1, start_line_number + ix_line)
""")], """
from bare_script import lint_script, parse_script, BareScriptParserError
try:
    model = parse_script('''
x = 1
if x:
    while x:
        function f():
            continue
        endfunction
        x = 0
    endwhile
endif
''')
except BareScriptParserError:
    model = None
if model:
    assert not [w for w in lint_script(model) if 'label' in w]
""", "a function defined inside a loop that is itself inside another block, with a stray continue in its body", "the continue jumps to a label of the caller's scope")

seed('c07-elif-index', 'C07', [('parser.py', """            label_defs.append({'if': ifthen})
            label_index += 1

            # Add the if-then header statement
""", """            label_defs.append({'if': ifthen})
            label_index = label_index + 1

            # Add the if-then header statement
"""), ('parser.py', """            # Update the previous jump statement's label, if necessary
            if not ifthen['hasElse']:
                ifthen['jump']['label'] = ifthen['done']

            # Add the if-then footer statement
            statements.append({'label': ifthen['done']})
            continue
""", """            # Update the previous jump statement's label, if necessary
            if not ifthen['hasElse']:
                ifthen['jump']['label'] = ifthen['done']

            # Add the if-then footer statement, unless an enclosing if statement's footer follows directly
            if not (statements and statements[-1].get('label') == ifthen['done']):
                statements.append({'label': ifthen['done']})
            if not label_defs and function_def is None and 'function' in statements[-2]:
                label_index = 0
            continue
""")], """
from bare_script import lint_script, parse_script
assert not [w for w in lint_script(parse_script('''
while a():
    b()
endwhile
if a():
    function f():
        return 1
    endfunction
endif
while a():
    b()
endwhile
''')) if 'label' in w]
""", "an outermost if block whose last statement is a function definition, between loops", "label numbers restart, so two labels of one scope collide")

# ---------------------------------------------------------------------------------------------------- C06
seed('c06-tab-caret', 'C06', [('parser.py', """        line_error = line
        line_column = column_number
""", """        line_error = line.replace('\\t', '    ')
        line_column = column_number
""")], """
from bare_script import parse_script, BareScriptParserError
line = "\\tx = 1 @ 2"
try:
    parse_script(line)
except BareScriptParserError as exc:
    shown, caret = str(exc).split('\\n')[1:3]
    assert shown[len(caret) - 1] == line[exc.column_number - 1], str(exc)
""", "a syntax error on a line that contains a tab", "the caret no longer sits under the reported column")

seed('c06-for-start-line', 'C06', [('parser.py', """                'value': match_for_begin.group('value'),
                'line': line,
                'lineNumber': start_line_number + ix_line
            }
""", """                'value': match_for_begin.group('value'),
                'line': line,
                'lineNumber': ix_line + 1
            }
""")], """
from bare_script import parse_script, BareScriptParserError
try:
    parse_script('x = 1\\nfor a in b:\\n', 10)
    assert False
except BareScriptParserError as exc:
    assert exc.line_number == 11, exc.line_number
""", "a for loop left open in a text parsed with a start line other than 1", "the reported line number ignores the start line")

seed('c06-include-dedupe', 'C06', [('parser.py', """            include_statement['include']['includes'].append({'url': url, 'system': True} if delim == '<' else {'url': url})
            continue
""", """            include = {'url': url, 'system': True} if delim == '<' else {'url': url}
            if include not in include_statement['include']['includes']:
                include_statement['include']['includes'].append(include)
            continue
""")], """
from bare_script import parse_script
model = parse_script("include 'a.bare'\\ninclude 'b.bare'\\ninclude 'a.bare'\\n")
assert [i['url'] for i in model['statements'][0]['include']['includes']] == ['a.bare', 'b.bare', 'a.bare']
""", "the same location included twice in one run of include lines", "a source line is silently dropped")

seed('c06-slash-comment', 'C06', [('parser.py', r"""_R_SCRIPT_COMMENT = re.compile(r'^\s*(?:#.*)?$')
""", r"""_R_SCRIPT_COMMENT = re.compile(r'^\s*(?:(?:#|//).*)?$')
""")], """
from bare_script import parse_script, BareScriptParserError
try:
    model = parse_script("x = 8 \\\\\\n    // 4 \\\\\\n    / 2\\n")
    assert False, model
except BareScriptParserError:
    pass
""", "a line, or a part of a continued line, that begins with two slashes", "the line is dropped without an error")

# ---------------------------------------------------------------------------------------------------- C10
seed('c10-chunk-lines', 'C10', [('parser.py', """            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part))
""", """            lines.extend(script_text_part.splitlines() or [''])
""")], """
from bare_script import parse_script
assert parse_script(["x = 'a\\x0cb'"]) == parse_script("x = 'a\\x0cb'")
""", "a chunked script whose string literal holds a character str.splitlines treats as a line end (form feed, U+2028)", "chunked input is split at characters that are not line boundaries, so the program depends on chunking")

seed('c10-expression-cache', 'C10', [('parser.py', """    try:
        expr, next_text = _parse_binary_expression(expr_text)
        if next_text.strip() != '':
""", """    try:
        expr, next_text = _EXPR_CACHE.get(expr_text) or _EXPR_CACHE.setdefault(expr_text, _parse_binary_expression(expr_text))
        if next_text.strip() != '':
"""), ('parser.py', """# BareScript expression regex
_R_EXPR_BINARY_OP""", """# Parsed expression texts
_EXPR_CACHE = {}


# BareScript expression regex
_R_EXPR_BINARY_OP""")], """
from bare_script import parse_expression
first = parse_expression('a + 1')
first['binary']['op'] = '-'
assert parse_expression('a + 1') == {'binary': {'op': '+', 'left': {'variable': 'a'}, 'right': {'number': 1}}}
""", "a caller that edits a returned model and parses the same expression text again", "parsed models share state between calls")

seed('c10-argument-space', 'C10', [('parser.py', r"""_R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'\s*,\s*')
""", r"""_R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r' *, *')
""")], """
from bare_script import parse_script
a = parse_script('function f(a, b):\\nreturn b\\nendfunction')
b = parse_script('function f(a,\\tb):\\nreturn b\\nendfunction')
assert a == b, b
""", "a tab around the comma of a function argument list", "the argument name contains the tab, so the parsed program depends on the kind of whitespace")

# ---------------------------------------------------------------------------------------------------- C08
seed('c08-last-label', 'C08', [('runtime.py', """                    if label_indexes is None:
                        label_indexes = {}
                    label_indexes[statement['jump']['label']] = ix_label
""", """                    if label_indexes is None:
                        label_indexes = {stmt['label']: ix_stmt for ix_stmt, stmt in enumerate(statements) if 'label' in stmt}
""")], """
from bare_script import execute_script
log = []
call = lambda n: {'expr': {'expr': {'function': {'name': 'note', 'args': [{'number': n}]}}}}
jump = {'jump': {'label': 'a', 'expr': {'function': {'name': 'again'}}}}
left = [2]
def again(args, options):
    left[0] -= 1
    return left[0] >= 0
script = {'statements': [{'label': 'a'}, call(1), jump, call(2), {'label': 'a'}, call(3)]}
execute_script(script, {'globals': {'note': lambda args, options: log.append(args[0]), 'again': again}})
assert log == [1, 1, 1, 2, 3], log
""", "a statement list with a label defined twice and at least two jumps taken", "only the first jump goes to the first label of the name; later jumps go to the last")

seed('c08-nested-function', 'C08', [('runtime.py', """        elif statement_key == 'function':
            globals_""", """        elif statement_key == 'function' and locals_ is not None:
            locals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)
        elif statement_key == 'function':
            globals_""")], """
from bare_script import execute_script
inner = {'function': {'name': 'g', 'statements': [{'return': {'expr': {'number': 5}}}]}}
script = {'statements': [{'function': {'name': 'f', 'statements': [inner]}}, {'expr': {'expr': {'function': {'name': 'f'}}}},
                         {'return': {'expr': {'function': {'name': 'g'}}}}]}
assert execute_script(script, {'globals': {}}) == 5
""", "a hand-built model with a function statement inside a function body, used after the outer call", "a nested function statement binds a local instead of a global function")

seed('c08-shared-labels', 'C08', [('runtime.py', """    # Iterate each script statement
    label_indexes = None
""", """    # Iterate each script statement
    label_indexes = options.setdefault('labelIndexes', {}) if locals_ is not None else None
""")], """
from bare_script import execute_script
ret = lambda n: {'return': {'expr': {'number': n}}}
f = {'function': {'name': 'f', 'statements': [{'jump': {'label': 'x'}}, ret(1), {'label': 'x'}, ret(2)]}}
g = {'function': {'name': 'g', 'statements': [{'jump': {'label': 'x'}}, ret(3), ret(4), ret(6), {'label': 'x'}, ret(5)]}}
call = lambda n: {'function': {'name': n}}
script = {'statements': [f, g, {'expr': {'expr': call('f')}}, {'return': {'expr': call('g')}}]}
assert execute_script(script, {'globals': {}}) == 5
""", "two functions using the same label name at different positions, both called", "a jump in one function lands at another function's label position")

# ---------------------------------------------------------------------------------------------------- C09
seed('c09-jump-count', 'C09', [('runtime.py', """        options['statementCount'] += 1
        max_statements""", """        options['statementCount'] += 1 if statement_key != 'label' else 0
        max_statements""")], """
from bare_script import execute_script, parse_script
from bare_script.runtime import BareScriptRuntimeError
script = parse_script('a:\\nb:\\nc:\\nx = 1\\n')
execute_script(script, {'globals': {}, 'maxStatements': 4})
try:
    execute_script(script, {'globals': {}, 'maxStatements': 3})
except BareScriptRuntimeError:
    pass
else:
    raise AssertionError('four statements ran under a limit of three')
""", "a script with labels reached by falling through and a limit between the two counts", "label statements are not counted against the budget")

seed('c09-calculated-copy', 'C09', [('data.py', """        row[field_name] = evaluate_expression(calc_expr, eval_options, row)
""", """        row_options = dict(eval_options) if eval_options is not None else None
        row[field_name] = evaluate_expression(calc_expr, row_options, row)
""")], """
from bare_script import execute_script, parse_script
from bare_script.runtime import BareScriptRuntimeError
script = parse_script('''
function twice(v):
    return v * 2
endfunction
rows = arrayNew(objectNew('a', 1), objectNew('a', 2), objectNew('a', 3))
dataCalculatedField(rows, 'b', 'twice(a)')
return rows
''')
try:
    execute_script(script, {'globals': {}, 'maxStatements': 5})
except BareScriptRuntimeError:
    pass
else:
    raise AssertionError('seven statements ran under a limit of five')
""", "script functions called from a calculated-field expression over several rows", "statements run in a dataCalculatedField expression are not counted")

seed('c09-sort-swallow', 'C09', [('library.py', """    array, compare_fn = value_args_validate(_ARRAY_SORT_ARGS, args)
    if compare_fn is None:
""", """    array, compare_fn = value_args_validate(_ARRAY_SORT_ARGS, args)
    if compare_fn is not None:
        compare_fn = functools.partial(_array_sort_compare, compare_fn)
    if compare_fn is None:
"""), ('library.py', """_ARRAY_SORT_ARGS = value_args_model([
""", """
def _array_sort_compare(compare_fn, args, options):
    try:
        return compare_fn(args, options)
    except Exception as exc: # pylint: disable=broad-exception-caught
        raise ValueArgsError('compareFn', compare_fn) from exc


_ARRAY_SORT_ARGS = value_args_model([
""")], """
from bare_script import execute_script, parse_script
from bare_script.runtime import BareScriptRuntimeError
script = parse_script('''
function spin(a, b):
    while true:
    endwhile
endfunction
return arraySort(arrayNew(2, 1), spin)
''')
try:
    result = execute_script(script, {'globals': {}, 'maxStatements': 50})
except BareScriptRuntimeError:
    pass
else:
    raise AssertionError(f'returned {result}')
""", "the limit is reached inside a comparison callback of arraySort", "the abort is swallowed by arraySort and the run continues")

# ---------------------------------------------------------------------------------------------------- C04
seed('c04-shared-empty', 'C04', [('runtime.py', """                func_locals[arg_name] = [] if ix_arg == ix_arg_last else None
""", """                func_locals[arg_name] = _NO_ARGS if ix_arg == ix_arg_last else None
"""), ('runtime.py', """# Runtime script function implementation.""", """# The value of a last argument array with no arguments
_NO_ARGS = []


# Runtime script function implementation.""")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script('''
function f(a, rest...):
    arrayPush(rest, a)
    return rest
endfunction
f(1)
return f(2)
'''), {'globals': {}}) == [2]
""", "a function that modifies its empty trailing array, called twice", "all calls without surplus arguments share one trailing array")

seed('c04-null-global', 'C04', [('runtime.py', """    globals_.update(name_func for name_func in SCRIPT_FUNCTIONS.items() if name_func[0] not in globals_)
""", """    globals_.update(name_func for name_func in SCRIPT_FUNCTIONS.items() if globals_.get(name_func[0]) is None)
""")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script('return systemFetch == null'), {'globals': {'systemFetch': None}}) is True
""", "a caller that disables a library function by binding its name to null", "a caller-supplied name bound to null is overwritten by the library")

seed('c04-library-assign', 'C04', [('runtime.py', """                if locals_ is not None:
                    locals_[expr_name] = expr_value
""", """                if locals_ is not None and expr_name not in SCRIPT_FUNCTIONS:
                    locals_[expr_name] = expr_value
""")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script('''
function f():
    arrayLength = 5
    return arrayLength
endfunction
f()
return arrayLength(arrayNew(1, 2))
'''), {'globals': {}}) == 2
""", "a function with a local variable named as a library function, and a later use of that function", "a local assignment escapes to the globals")

# ---------------------------------------------------------------------------------------------------- C05
seed('c05-wrapper-narrow', 'C05', [('runtime.py', """            except Exception as error: # pylint: disable=broad-exception-caught
""", """            except (ValueArgsError, ArithmeticError, AttributeError, LookupError, OSError, TypeError, ValueError) as error:
""")], """
from bare_script import execute_script, parse_script
def boom(args, options):
    raise RuntimeError('host failure')
assert execute_script(parse_script('x = boom()\\nreturn 5'), {'globals': {'boom': boom}}) == 5
""", "a host function that raises RuntimeError (or another class outside the list)", "the host exception reaches the embedding application")

seed('c05-aware-difference', 'C05', [('runtime.py', """                left_dt = value_normalize_datetime(left_value)
                right_dt = value_normalize_datetime(right_value)
""", """                left_dt = left_value if isinstance(left_value, datetime.datetime) else value_normalize_datetime(left_value)
                right_dt = right_value if isinstance(right_value, datetime.datetime) else value_normalize_datetime(right_value)
""")], """
import datetime
from bare_script import evaluate_expression, parse_expression
a = datetime.datetime(2024, 1, 2, tzinfo=datetime.timezone.utc)
evaluate_expression(parse_expression('a - b'), {'globals': {'a': a, 'b': datetime.datetime(2024, 1, 1)}})
""", "a host-supplied aware datetime minus a naive one", "TypeError escapes from the - operator")

seed('c05-aware-compare', 'C05', [('value.py', """        left_dt = value_normalize_datetime(left)
        right_dt = value_normalize_datetime(right)
        return -1""", """        left_dt = left if isinstance(left, datetime.datetime) else value_normalize_datetime(left)
        right_dt = right if isinstance(right, datetime.datetime) else value_normalize_datetime(right)
        return -1""")], """
import datetime
from bare_script import evaluate_expression, parse_expression
aware = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)
evaluate_expression(parse_expression('a < b'), {'globals': {'a': datetime.datetime(2024, 1, 1), 'b': aware}})
""", "a timezone-aware datetime global compared with a naive one by an operator", "the comparison raises TypeError instead of producing a value")
seed('c11-object-order', 'C11', [('value.py', """        left_key_values = sorted(left.items())
        right_key_values = sorted(right.items())
""", """        left_key_values = sorted(left.items())
        right_key_values = list(right.items()) if len(right) == len(left) else sorted(right.items())
""")], """
from bare_script import execute_script, parse_script
a, b = {'x': 1, 'y': 2}, {'y': 2, 'x': 1}
assert execute_script(parse_script('return arrayNew(systemCompare(a, b), systemCompare(b, a))'), {'globals': {'a': a, 'b': b}}) == [0, 0]
""", "two objects of equal size whose keys were inserted in a different order", "equal objects compare unequal and comparison is not antisymmetric")
seed('c11-index-fast', 'C11', [('library.py', """    else:
        for ix in range(int(index), len(array)):
            if value_compare(array[ix], value) == 0:
                return ix
""", """    elif value_type(value) == 'number':
        try:
            return array.index(value, int(index))
        except ValueError:
            return -1
    else:
        for ix in range(int(index), len(array)):
            if value_compare(array[ix], value) == 0:
                return ix
""")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return arrayIndexOf(arrayNew(true, 1), 1)"), {'globals': {}}) == 1
""", "searching for 1 or 0 in an array that has true or false before it", "arrayIndexOf finds true for 1 although true == 1 is false")
seed('c11-min-null', 'C11', [('library.py', """    result = None
    is_first = True
    for value in values:
        if is_first:
            result = value
            is_first = False
        elif value_compare(value, result) < 0:
            result = value
    return result
""", """    result = None
    for value in values:
        if result is None or value_compare(value, result) < 0:
            result = value
    return result
""")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return mathMin(null, 5)"), {'globals': {}}) is None
""", "a null argument of mathMin followed by another value", "mathMin skips null, which is least")
seed('c11-sort-numbers', 'C11', [('library.py', """    if compare_fn is None:
        array[:]""", """    if compare_fn is None and all(isinstance(value, (int, float)) for value in array):
        array.sort()
    elif compare_fn is None:
        array[:]""")], """
from bare_script import execute_script, parse_script
got = execute_script(parse_script("return arraySort(arrayNew(3, true, -1))"), {'globals': {}})
assert got[0] is True, got
""", "sorting an array of numbers and booleans", "booleans are ordered among the numbers, not before them by type name")
seed('c12-repeat-short', 'C12', [('library.py', "    return string * int(count)", "    return string * int(count) if count > 1 else string[:count * len(string)]")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return stringRepeat('ab', 1)"), {'globals': {}}) == 'ab'
""", "stringRepeat with the count 0 or 1 given by a script literal", "the call fails for a float count below two")
seed('c12-delete-last', 'C12', [('library.py', "    del array[int(index)]", "    if index == len(array) - 1:\n        array.pop(index)\n    else:\n        del array[int(index)]")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script('''a = arrayNew(1, 2, 3)
arrayDelete(a, 2)
return arrayLength(a)'''), {'globals': {}}) == 2
""", "deleting the last element with an index given by a script literal", "arrayDelete fails silently for the last element when the index is a float")
seed('c12-compare-nested', 'C12', [('value.py', """        for ix in range(min(len(left), len(right))):
            item_compare = value_compare(left[ix], right[ix])
""", """        for ix in range(min(len(left), len(right))):
            item_compare = value_compare(left[ix], right[ix]) if type(left[ix]) is type(right[ix]) else \\
                value_compare(type(left[ix]).__name__, type(right[ix]).__name__) # different types
""")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return arrayNew(arrayLength(arrayNew(1))) == arrayNew(1)"), {'globals': {}}) is True
""", "arrays holding a number as an int (a length) on one side and a literal on the other", "equal arrays compare unequal when the spelling of an element differs")
seed('c13-exponent-digits', 'C13', [('parser.py', r"""(?:e[+-]\d+)?)')""", r"""(?:e[+-]\d\d)?)')""")], """
from bare_script import execute_script, parse_script, evaluate_expression, parse_expression
assert evaluate_expression(parse_expression(str(1e-200)), {'globals': {}}) == 1e-200
""", "a number whose text has a three-digit exponent", "its text is not a numeric literal any more")
seed('c13-parse-overflow', 'C13', [('value.py', "        if math.isnan(value) or math.isinf(value):\n            return None\n        return value\n", "        if math.isnan(value) or 'inf' in text.lower():\n            return None\n        return value\n")], """
import math
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return numberParseFloat('1e999')"), {'globals': {}}) is None
""", "a digit text too large for a double", "numberParseFloat gives infinity instead of null")
seed('c13-join-digits', 'C13', [('library.py', "return separator.join(value_string(value) for value in array)", "return separator.join(f'{value:.15g}' if isinstance(value, float) and abs(value) < 1e15 else value_string(value) for value in array)")], """
from bare_script import evaluate_expression, parse_expression, execute_script, parse_script
assert execute_script(parse_script("return numberParseFloat(arrayJoin(arrayNew(0.1 + 0.2), ''))"), {'globals': {}}) == 0.1 + 0.2
""", "joining a number that needs more than 15 digits", "its text reads back as another number")
seed('c14-parse-slash', 'C14', [('library.py', "    return json.loads(string)\n", "    return json.loads(string.replace('\\\\/', '/'))\n")], """
from bare_script import execute_script, parse_script
g = {'v': 'C:\\\\/x'}
assert execute_script(parse_script("return jsonParse(jsonStringify(v)) == v"), {'globals': g}) is True
""", "a string in which a backslash is followed by a slash", "unescaping slashes before parsing alters the string")
seed('c14-parse-cache', 'C14', [('library.py', "    return json.loads(string)\n", "    if string not in _JSON_PARSE_CACHE:\n        _JSON_PARSE_CACHE[string] = json.loads(string)\n    return _JSON_PARSE_CACHE[string]\n\n_JSON_PARSE_CACHE = {}\n")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script('''a = jsonParse('[1]')
arrayPush(a, 2)
return arrayLength(jsonParse('[1]'))'''), {'globals': {}}) == 1
""", "parsing the same text again after changing the first result", "jsonParse gives the cached, changed container")
seed('c14-plain-string', 'C14', [('library.py', "    return value_json(value, int(indent) if indent is not None else None)\n", "    if isinstance(value, str) and value.isprintable() and '\"' not in value:\n        return f'\"{value}\"'\n    return value_json(value, int(indent) if indent is not None else None)\n")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return jsonParse(jsonStringify(v)) == v"), {'globals': {'v': 'a' + chr(92) + 'n'}}) is True
""", "a top-level string holding a backslash", "the backslash is not escaped")
seed('c14-key-strip', 'C14', [('value.py', "    if indent is not None and indent > 0:\n", "    if isinstance(value, dict) and indent is not None:\n        value = {key.strip(): member for key, member in value.items()}\n    if indent is not None and indent > 0:\n")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return jsonParse(jsonStringify(v, 2)) == v"), {'globals': {'v': {' a': 1}}}) is True
""", "a key with surrounding white space in an indented top-level object", "the key is trimmed")
seed('c15-slice-whole', 'C15', [('library.py', "    return array[int(start):int(end)]", "    if start == 0 and end == len(array):\n        return array\n    return array[int(start):int(end)]")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script('''a = arrayNew(1, 2)
b = arraySlice(a, 0)
arrayPush(b, 3)
return arrayLength(a)'''), {'globals': {}}) == 2
""", "a slice of the whole array that is changed afterwards", "the slice is the array itself")
seed('c15-assign-null', 'C15', [('library.py', "    object_.update(object2)\n", "    object_.update((key, value) for key, value in object2.items() if value is not None)\n")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return objectGet(objectAssign(objectNew('a', 1), objectNew('a', null)), 'a')"), {'globals': {}}) is None
""", "assigning an object that holds a null", "the null value is not assigned")
seed('c15-url-percent', 'C15', [('library.py', 'safe="\':/&+")', 'safe="\':/&+%")')], """
import urllib.parse
from bare_script import execute_script, parse_script
assert urllib.parse.unquote(execute_script(parse_script("return urlEncode('100%41')"), {'globals': {}})) == '100%41'
""", "a text in which a percent sign is followed by two hexadecimal digits", "percent-decoding does not give the text back")
seed('c15-get-null', 'C15', [('library.py', "    return object_.get(key, default_value)\n", "    value = object_.get(key)\n    return default_value if value is None else value\n")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return objectGet(objectNew('a', null), 'a', 5)"), {'globals': {}}) is None
""", "a key that is present with the value null, and a default", "the default replaces a stored null")
seed('c15-find-offset', 'C15', [('library.py', "    return string.find(search, int(index))\n", "    found = string[int(index):].find(search)\n    return found + int(index) if found != -1 or not search else found\n"),
     ('library.py', "    return string.endswith(search)\n", "    return string[-len(search):] == search\n")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return stringEndsWith('abc', '')"), {'globals': {}}) is True
""", "an empty search string", "a slice from -0 is the whole string, so a string no longer ends with the empty string")
seed('c16-four-years', 'C16', [('library.py', "    # Adjust day\n    if day < 1:\n", "    # Skip whole four-year cycles\n    if day <= -1461:\n        cycles = -day // 1461\n        year -= 4 * cycles\n        day += 1461 * cycles\n\n    # Adjust day\n    if day < 1:\n")], """
import datetime
from bare_script import execute_script, parse_script
assert execute_script(parse_script("return datetimeNew(1903, 1, -1999)"), {'globals': {}}) == datetime.datetime(1903, 1, 1) - datetime.timedelta(days=2000)
""", "a day several years below one, reaching over a century year that is not a leap year", "a four-year cycle over 1900 has 1460 days")
seed('c16-subtract-truncate', 'C16', [('runtime.py', "                return value_round_number((left_dt - right_dt).total_seconds() * 1000, 0)", "                return int((left_dt - right_dt).total_seconds() * 1000)")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("d = datetimeNew(2024, 1, 1)\\nfor n in arrayNew(1, 33, 1001, 4035, 8035):\\n    if (d + n) - d != n:\\n        return n\\n    endif\\nendfor\\nreturn null"), {'globals': {}}) is None
""", "a number of milliseconds whose seconds are not exact in binary (e.g. 4035)", "the difference is truncated to one millisecond less")
seed('c16-format-half-hour', 'C16', [('value.py', r"""        return _R_DATETIME_TZ_CLEANUP.sub(r'\1', iso)""", r"""        return _R_DATETIME_TZ_CLEANUP.sub(r'\1:00' if not iso[-5:-3] in ('00', '30') else r'\1', iso)"""),
     ('value.py', r"_R_DATETIME_TZ_CLEANUP = re.compile(r'([+-]\d\d:\d\d):\d\d$')", r"_R_DATETIME_TZ_CLEANUP = re.compile(r'([+-]\d\d):[1-9]5$')")], """
import os, time
os.environ['TZ'] = '<+0545>-5:45'
time.tzset()
from bare_script import execute_script, parse_script
assert execute_script(parse_script("d = datetimeNew(2024, 1, 4)\\nreturn datetimeISOParse(datetimeISOFormat(d)) == d"), {'globals': {}}) is True
""", "a time zone whose offset is not a whole or half hour", "the quarter-hour offset is cut to the hour")

# ---------------------------------------------------------------------------------------------------- C17
INC = """
import functools
from bare_script import execute_script, parse_script
from bare_script.options import url_file_relative
def go(files, text, base=None, **options):
    urls = []
    def fetch(request):
        urls.append(request['url'])
        return files.get(request['url'])
    options = {'globals': {}, 'fetchFn': fetch, **options}
    if base is not None:
        options['urlFn'] = functools.partial(url_file_relative, base)
    try:
        execute_script(parse_script(text), options)
    except Exception as exc:
        urls.append(str(exc).split(chr(10))[0])
    return urls, {k: v for k, v in options['globals'].items() if not callable(v)}
"""
seed('c17-shared-options', 'C17', [('runtime.py', "                include_options = options.copy()\n", "                include_options = options\n")], INC + """
assert go({'lib/a.bare': 'x = 1'}, "include 'lib/a.bare'\\nsystemFetch('data.json')", 'main.bare')[0] == ['lib/a.bare', 'data.json']
""", "a relative path used by the includer (systemFetch) after an include of a file in another directory", "the includer's own path resolution is left changed")
seed('c17-prefetch', 'C17', [('runtime.py', "            for include in statement['include']['includes']:\n                url = include['url']\n", "            include_texts = {}\n            for include in statement['include']['includes']:\n                url = include['url']\n"),
     ('runtime.py', "                    script_text = fetch_fn({'url': url}) if fetch_fn is not None else None\n", "                    script_text = include_texts.get(url)\n                    if script_text is None and fetch_fn is not None:\n                        script_text = include_texts[url] = fetch_fn({'url': url})\n")], INC + """
assert go({'a.bare': 'x = if(x == null, 1, x + 1)'}, "include 'a.bare'\\ninclude 'a.bare'") == (['a.bare', 'a.bare'], {'x': 2})
""", "the same location included twice in adjacent statements", "the second statement does not fetch the text again")
seed('c17-prefix-base', 'C17', [('runtime.py', "                if include.get('system') and system_prefix is not None:\n", "                if (include.get('system') or url_fn is None) and system_prefix is not None:\n")], INC + """
assert go({'a.bare': 'x = 1'}, "include 'a.bare'", systemPrefix='https://h/lib/')[0] == ['a.bare']
""", "a script run without a location of its own (no urlFn) and with a system prefix", "plain includes are looked up in the system library")
seed('c17-package-basename', 'C17', [('bare.py', "        path = url[len(_FETCH_INCLUDE_PREFIX):]\n", "        path = os.path.basename(url)\n")], """
from contextlib import redirect_stdout
from io import StringIO
from bare_script.bare import main
out = StringIO()
try:
    with redirect_stdout(out):
        main(['-c', "include <extra/diff.bare>"])
except SystemExit as exc:
    assert exc.code == 1
assert ':bare-include:/extra/diff.bare' in out.getvalue()
""", "a system include of a path with a directory, on the command line", "a different file of the package is loaded")
seed('c17-url-scheme', 'C17', [('options.py', "_R_URL = re.compile(r'^[a-z]+:')", "_R_URL = re.compile(r'^[a-z]+://')")], INC + """
assert go({}, "include 'data:text/plain,x = 1'", 'dir/main.bare')[0][0] == 'data:text/plain,x = 1'
""", "an absolute URL without an authority (data:, file:/path), included from a file in a directory", "it is taken for a relative path")

# ---------------------------------------------------------------------------------------------------- C18
LINT = """
import copy
from bare_script import execute_script, lint_script, parse_script, validate_script
"""
seed('c18-second-call', 'C18', [('model.py', """            uses[expr['function']['name']] = ix_statement
        if 'args' in expr['function']:
            for arg_expr in expr['function']['args']:
                _get_expression_variable_uses(arg_expr, uses, ix_statement)""", """            uses[expr['function']['name']] = ix_statement
        elif expr['function']['name'] == 'if':
            return
        if 'args' in expr['function']:
            for arg_expr in expr['function']['args']:
                _get_expression_variable_uses(arg_expr, uses, ix_statement)""")], LINT + """
assert lint_script(parse_script("function f(a, b):\\n  x = if(a, 1, 2)\\n  return x + if(b, 3, 4)\\nendfunction\\nf(1, 2)")) == []
""", "an argument or variable read only inside the second if() of a function", "it is reported as unused; renaming it changes the result")
seed('c18-pointless-logical', 'C18', [('model.py', "        return _is_pointless_expression(expr['binary']['left']) and _is_pointless_expression(expr['binary']['right'])",
     "        return (_is_pointless_expression(expr['binary']['left']) and\n                (expr['binary']['op'] in ('&&', '||') or _is_pointless_expression(expr['binary']['right'])))")], LINT + """
assert lint_script(parse_script("v = true\\nv && systemLog('x')")) == []
""", "a statement of the form `condition && call()`", "it is reported as pointless; deleting it loses the call")
seed('c18-outer-label', 'C18', [('model.py', "                if label not in fn_labels_defined:\n", "                if label not in fn_labels_defined and label not in labels_defined:\n")], LINT + """
text = "lab:\\nfunction f():\\n  jump lab\\nendfunction\\njump lab"
assert any('Unknown label "lab" in function "f"' in warning for warning in lint_script(parse_script(text)))
""", "a jump in a function to a label that only the global scope defines, before the function", "the unknown label is not reported")
seed('c18-args-default', 'C18', [('model.py', "            args = statement['function'].get('args')\n", "            args = statement['function'].setdefault('args', [])\n")], LINT + """
model = parse_script("function f():\\n  return 1\\nendfunction\\nf()")
before = copy.deepcopy(model)
lint_script(model)
assert model == before
validate_script(model)
""", "a function without arguments", "linting adds an (invalid) empty argument list to the model")

# ---------------------------------------------------------------------------------------------------- C19
DATA = """
from bare_script import execute_script, parse_script
from bare_script.data import add_calculated_field, aggregate_data, filter_data, join_data, sort_data, top_data
"""
seed('c19-join-names', 'C19', [('data.py', """    for row in left_data:
        for field_name in row:
            if field_name not in left_names:
                left_names[field_name] = field_name
""", """    for field_name in left_data[0] if left_data else ():
        left_names[field_name] = field_name
""")], DATA + """
rows = join_data([{'k': 1}, {'k': 1, 'a': 2}], [{'k': 1, 'a': 3}], 'k')
assert rows[1]['a'] == 2, rows
""", "a left field that the first left row does not have and the right table has", "the right value overwrites the left field")
seed('c19-sort-tie', 'C19', [('data.py', "        value2 = row2.get(field)\n        result =", "        value2 = row2.get(field)\n        if value1 == value2:\n            continue\n        result =")], DATA + """
assert sort_data([{'a': 1, 'b': 1}, {'a': True, 'b': 2}], [['a'], ['b']]) == [{'a': True, 'b': 2}, {'a': 1, 'b': 1}]
""", "a sort field with both booleans and numbers (true against 1)", "the two are taken as equal and ordered by the next key")
seed('c19-measure-falsy', 'C19', [('data.py', "            value = row.get(measure['field'])\n            if value is not None:\n", "            value = row.get(measure['field'])\n            if value:\n")], DATA + """
assert aggregate_data([{'a': 0}, {'a': 4}], {'measures': [{'field': 'a', 'function': 'average'}]})[0]['a'] == 2
""", "a measure value that is zero, false or empty", "it is left out of count, min and average")
seed('c19-variables-order', 'C19', [('data.py', """    # Filter the data
    for row in data:
        if value_boolean(evaluate_expression(filter_expr, eval_options, row)):
            result.append(row)
""", """    # Filter the data
    for row in data:
        if value_boolean(evaluate_expression(filter_expr, eval_options, {**row, **variables} if variables else row)):
            result.append(row)
""")], DATA + """
assert filter_data([{'a': 1}, {'a': 2}], 'a == 1', {'a': 2}) == [{'a': 1}]
""", "a variable with the name of a field", "the variable hides the field")
seed('c19-stddev-one-pass', 'C19', [('data.py', "                aggregate_row[field] = statistics.pstdev(measure_values)\n", "                mean = math.fsum(measure_values) / len(measure_values)\n                aggregate_row[field] = math.sqrt(max(0, math.fsum(v * v for v in measure_values) / len(measure_values) - mean * mean))\n")], DATA + """
row = aggregate_data([{'a': 1e9 + i} for i in range(5)], {'measures': [{'field': 'a', 'function': 'stddev'}]})[0]
assert abs(row['a'] - 2 ** 0.5) < 0.001, row
""", "measure values that are large against their spread", "the standard deviation is wrong in its first digit")
# ---------------------------------------------------------------------------------------------------- C20
DIFF = """
from bare_script import execute_script, lint_script, parse_script
from bare_script import bare
def diff(left, right):
    script = parse_script('include <diff.bare>\\nreturn diffLines(l, r)')
    return execute_script(script, {'globals': {'l': left, 'r': right}, 'fetchFn': bare._fetch_include, 'systemPrefix': bare._FETCH_INCLUDE_PREFIX})
def sides(left, right):
    d = diff(left, right)
    assert all(b['lines'] for b in d), d
    return [x for b in d if b['type'] != 'Add' for x in b['lines']], [x for b in d if b['type'] != 'Remove' for x in b['lines']]
"""
seed('c20-shared-block', 'C20', [('include/diff.bare', "    ixLeft = 0\n    ixRight = 0\n    leftLength", "    identicalLines = arrayNew()\n    ixLeft = 0\n    ixRight = 0\n    leftLength"),
     ('include/diff.bare', "        # Find consecutive identical lines\n        identicalLines = arrayNew()\n", "        # Find consecutive identical lines\n        while identicalLines:\n            arrayPop(identicalLines)\n        endwhile\n")], DIFF + """
assert sides(['a', 'c'], ['a', 'b', 'c']) == (['a', 'c'], ['a', 'b', 'c'])
""", "two runs of identical lines in one difference", "the blocks share their lines")
seed('c20-trim', 'C20', [('include/diff.bare', "        while ixLeft < leftLength && ixRight < rightLength && arrayGet(leftLines, ixLeft) == arrayGet(rightLines, ixRight):\n",
      "        while ixLeft < leftLength && ixRight < rightLength && stringTrim(arrayGet(leftLines, ixLeft)) == stringTrim(arrayGet(rightLines, ixRight)):\n")], DIFF + """
assert sides(['a', 'b'], ['a ', 'b']) == (['a', 'b'], ['a ', 'b'])
""", "lines that differ in leading or trailing blanks only", "the right line is given as the left line")
seed('c20-lint', 'C20', [('include/pager.bare', "    pages = objectGet(pagerModel, 'pages')\n    visiblePages = arrayNew()\n", "    pages = objectGet(pagerModel, 'pages')\n    pageCount = arrayLength(pages)\n    visiblePages = arrayNew()\n")], DIFF + """
import importlib.resources
for path in importlib.resources.files('bare_script.include').iterdir():
    if path.name.endswith('.bare'):
        assert lint_script(parse_script(path.read_text(encoding='utf-8'))) == [], path.name
""", "static analysis of pager.bare", "an unused variable")
seed('c20-crlf', 'C20', [('include/diff.bare', "        rightLines = regexSplit(diffRegexLineSplit, right)\n", "        rightLines = stringSplit(right, stringFromCharCode(10))\n")], DIFF + """
assert sides('a\\r\\nb', 'a\\r\\nb') == (['a', 'b'], ['a', 'b'])
assert all(b['type'] == 'Identical' for b in diff('a\\r\\nb', 'a\\r\\nb'))
""", "a right text with CRLF line endings", "its lines keep the carriage return, and equal texts differ")
seed('c20-remainder', 'C20', [('include/diff.bare', "            if ixRight < rightLength:\n                arrayPush(diffs, objectNew('type', 'Add', 'lines', arraySlice(rightLines, ixRight)))\n                ixRight = rightLength\n            endif\n            continue\n",
     "            if ixRight < rightLength - 1:\n                arrayPush(diffs, objectNew('type', 'Add', 'lines', arraySlice(rightLines, ixRight)))\n                ixRight = rightLength\n            endif\n            break\n")], DIFF + """
assert sides(['a', 'x', 'y'], ['a', 'z']) == (['a', 'x', 'y'], ['a', 'z'])
""", "inputs that end in unmatched lines, one of them on the right", "the last right line is lost")
seed('c20-empty-line-block', 'C20', [('value.py', "        return len(value) != 0\n", "        return len(value) != 0 and value != ['']\n")], DIFF + """
assert sides(['a', '', 'b'], ['x', '', 'y']) == (['a', '', 'b'], ['x', '', 'y'])
""", "an identical run that is one empty line", "the block is dropped (the script runs into its statement limit)")
seed('c20-normalized-equal', 'C20', [('value.py', "    elif isinstance(left, str) and isinstance(right, str):\n        return -1 if left < right else (0 if left == right else 1)\n",
      "    elif isinstance(left, str) and isinstance(right, str):\n        if left != right and unicodedata.normalize('NFC', left) == unicodedata.normalize('NFC', right):\n            return 0\n        return -1 if left < right else (0 if left == right else 1)\n"),
     ('value.py', "import uuid\n", "import unicodedata\nimport uuid\n")], DIFF + """
assert sides(['caf\\u00e9'], ['cafe\\u0301']) == (['caf\\u00e9'], ['cafe\\u0301'])
""", "lines that differ in their Unicode composition only", "the right line is given as the left line")
seed('c20-split-trailing', 'C20', [('library.py', "    regex, string = value_args_validate(_REGEX_SPLIT_ARGS, args)\n    return regex.split(string)\n",
      "    regex, string = value_args_validate(_REGEX_SPLIT_ARGS, args)\n    parts = regex.split(string)\n    if len(parts) > 2 and parts[-1] == '':\n        del parts[-1]\n    return parts\n")], DIFF + """
assert sides('a\\nb\\n', 'a\\nb') == (['a', 'b', ''], ['a', 'b'])
""", "a text that ends in a line break, with two lines or more", "the last (empty) line is lost")

# ---------------------------------------------------------------------------------------------------- misses of earlier checks
seed('c02-trailing-hash', 'C02', [('parser.py', "        if next_text.strip() != '':", "        if next_text.split('#')[0].strip() != '':")], """
from bare_script import parse_expression
from bare_script.parser import BareScriptParserError
try:
    parse_expression('a + b # c')
except BareScriptParserError:
    pass
else:
    raise AssertionError('accepted')
""", "an expression followed by a # and any text", "text that is not an expression is accepted and its tail ignored")
seed('c03-if-script-builtins', 'C03', [('runtime.py', "            return evaluate_expression(result_expr, options, locals_, builtins) if result_expr else None",
                                       "            return evaluate_expression(result_expr, options, locals_) if result_expr else None")], """
from bare_script import execute_script, parse_script
from bare_script.runtime import BareScriptRuntimeError
try:
    execute_script(parse_script("return if(true, len('abc'), 0)"))
except BareScriptRuntimeError:
    pass
else:
    raise AssertionError('the expression built-in is visible in a script')
""", "a built-in expression function called in a branch of if() in a script", "the branch is evaluated in expression mode")
seed('c15-extend-itself', 'C15', [('library.py', "    array.extend(array2)\n", "    for value in array2:\n        array.append(value)\n")], """
import signal
from bare_script import execute_script, parse_script
signal.setitimer(signal.ITIMER_REAL, 0.5)
assert execute_script(parse_script("a = arrayNew(1, 2)\\narrayExtend(a, a)\\nreturn a")) == [1, 2, 1, 2]
""", "an array extended with itself", "the loop follows its own additions and does not end")
seed('c15-new-of-array', 'C15', [('library.py', "def _array_new(args, unused_options):\n", "def _array_new(args, unused_options):\n    if len(args) == 1 and isinstance(args[0], list):\n        return args[0]\n")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("a = arrayNew(1)\\nreturn arrayNew(a)")) == [[1]]
""", "arrayNew with a single argument that is an array", "the argument itself is returned instead of an array that holds it")
seed('c15-match-truth', 'C15', [('library.py', "            if value_boolean(value([array[ix]], options)):\n                return ix\n    else:\n        for ix in range(int(index), len(array)):",
                                "            if value([array[ix]], options):\n                return ix\n    else:\n        for ix in range(int(index), len(array)):")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("function f(x):\\n    return objectNew()\\nendfunction\\nreturn arrayIndexOf(arrayNew(1), f)")) == 0
""", "a match function that returns an empty object", "the empty object is taken as false although it is true in the language")
seed('c04-partial-arguments', 'C04', [('library.py', "    return lambda args_extra, options: func([*func_args, *args_extra], options)",
                                      "    return lambda args_extra, options: func(func_args + args_extra if args_extra else func_args, options)")], """
from bare_script import execute_script, parse_script
assert execute_script(parse_script("p = systemPartial(arrayNew, 1)\\nx = p()\\narrayPush(x, 2)\\nreturn p()")) == [1]
""", "a partial called without further arguments, of a function that keeps its argument list", "the bound arguments are shared by the calls")
seed('c11-object-key-case', 'C11', [('value.py', "        left_key_values = sorted(left.items())\n        right_key_values = sorted(right.items())",
                                    "        left_key_values = sorted(left.items(), key=lambda kv: kv[0])\n        right_key_values = list(right.items()) if len(right) == 1 else sorted(right.items(), key=lambda kv: kv[0].lower())")], """
from bare_script.value import value_compare
assert value_compare({'a': 1, 'B': 2}, {'a': 1, 'B': 2}) == 0
""", "objects with keys of mixed case", "an object is not equal to itself")
seed('c18-label-set-order', 'C18', [('model.py', "            for label in sorted(fn_labels_used.keys()):\n                if label not in fn_labels_defined:",
                                    "            for label in set(fn_labels_used) - set(fn_labels_defined):\n                if label is not None:")], """
import os, subprocess, sys
code = '''
from bare_script import lint_script, parse_script
print(lint_script(parse_script('function f():\\\\n' + ''.join(f'jump l{i}\\\\n' for i in range(12)) + 'endfunction\\\\nf()')))
'''
outs = {subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True, check=True).stdout for h in range(4)}
assert len(outs) == 1, outs
""", "several unknown labels in one function, and runs with different hash seeds", "the same model gives its warnings in different orders")
seed('c19-filter-object', 'C19', [('data.py', "        if value_boolean(evaluate_expression(filter_expr, eval_options, row)):", "        if evaluate_expression(filter_expr, eval_options, row):")], """
from bare_script.data import filter_data
assert filter_data([{'a': {}}, {'a': 1}, {'a': []}], 'a') == [{'a': {}}, {'a': 1}]
""", "a filter expression whose value is an empty object", "the row is dropped although an empty object is true")
seed('c06-return-column', 'C06', [('parser.py', "column_number = len(match_return.group('return')) - len(match_return.group('expr')) + error.column_number",
                                  "column_number = line.index(match_return.group('expr')) + error.column_number")], """
from bare_script import parse_script
from bare_script.parser import BareScriptParserError
try:
    parse_script('return n n')
except BareScriptParserError as exc:
    assert exc.column_number in (9, 10), exc.column_number
""", "a malformed return expression whose text also occurs in the keyword", "the column points into the keyword")
seed('c17-system-absolute', 'C17', [('runtime.py', "                if include.get('system') and system_prefix is not None:", "                if include.get('system') and system_prefix is not None and not url.startswith('/'):")], """
from bare_script import execute_script, parse_script
urls = []
def fetch(request):
    urls.append(request['url'])
    return ''
execute_script(parse_script('include </lib/a.bare>'), {'fetchFn': fetch, 'systemPrefix': ':sys:/', 'urlFn': lambda url: 'app/' + url.lstrip('/')})
assert urls == ['/lib/a.bare'], urls
""", "a system include of an absolute path and a host with a URL function of its own", "the absolute path is rewritten by the host's function")
seed('c20-split-element', 'C20', [('include/diff.bare', "            arrayExtend(rightLines, regexSplit(diffRegexLineSplit, rightPart))", "            arrayPush(rightLines, rightPart)")], """
from bare_script import execute_script, parse_script
from bare_script.bare import _fetch_include
script = parse_script("include <diff.bare>\\nreturn diffLines(arrayNew('a', 'b'), arrayNew(l))")
d = execute_script(script, {'globals': {'l': 'a\\nb'}, 'fetchFn': _fetch_include, 'systemPrefix': ':bare-include:/'})
assert [x['type'] for x in d] == ['Identical'], d
""", "an element of the right array that holds several lines", "the element is not split, so equal inputs differ")
seed('c09-label-free', 'C09', [('runtime.py', "        if max_statements > 0 and options['statementCount'] > max_statements:", "        if max_statements > 0 and options['statementCount'] > max_statements and statement_key != 'label':")], """
from bare_script import execute_script, parse_script
from bare_script.runtime import BareScriptRuntimeError
try:
    execute_script(parse_script('a = 1\\nend:'), {'maxStatements': 1})
except BareScriptRuntimeError:
    pass
else:
    raise AssertionError('no failure')
""", "a script whose last statement started is a label, exactly one past the limit", "a label statement passes the limit without a failure")
seed('c01-function-kept', 'C01', [('runtime.py', "        elif statement_key == 'function':", "        elif statement_key == 'function' and not isinstance(globals_.get(statement['function']['name']), functools.partial):")], """
from bare_script import execute_script, parse_script
r = execute_script(parse_script('function f():\\n    return 1\\nendfunction\\nfunction f():\\n    return 2\\nendfunction\\nreturn f()'))
assert r == 2, r
""", "a script that defines a function name twice", "the first definition stays in force")
