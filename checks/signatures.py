"""The documented library functions: the kinds of their arguments (with the optional ones marked) and pools of constants per kind"""

import copy
import datetime

from absint.values import HostFn, PyExc, Sym, sym  # noqa: F401

# kind suffix '?': optional or nullable, '*': the remaining arguments
SIG = {
    'arrayCopy': ['array'], 'arrayDelete': ['array', 'index'], 'arrayExtend': ['array', 'array'], 'arrayGet': ['array', 'index'], 'arrayIndexOf': ['array', 'any', 'index?'],
    'arrayJoin': ['array', 'string'], 'arrayLastIndexOf': ['array', 'any', 'index?'], 'arrayLength': ['array'], 'arrayNew': ['any*'], 'arrayNewSize': ['size?', 'any?'], 'arrayPop': ['array'],
    'arrayPush': ['array', 'any*'], 'arraySet': ['array', 'index', 'any'], 'arrayShift': ['array'], 'arraySlice': ['array', 'index?', 'index?'], 'arraySort': ['array', 'compare?'],
    'dataAggregate': ['data', 'aggregation'], 'dataCalculatedField': ['data', 'field', 'expr', 'variables?'], 'dataFilter': ['data', 'expr', 'variables?'],
    'dataJoin': ['data', 'data', 'expr', 'expr?', 'boolean?', 'variables?'], 'dataParseCSV': ['csv*'], 'dataSort': ['data', 'sorts'], 'dataTop': ['data', 'count', 'fields?'], 'dataValidate': ['data', 'boolean?'],
    'datetimeDay': ['datetime'], 'datetimeHour': ['datetime'], 'datetimeISOFormat': ['datetime', 'boolean?'], 'datetimeISOParse': ['iso'], 'datetimeMillisecond': ['datetime'], 'datetimeMinute': ['datetime'],
    'datetimeMonth': ['datetime'], 'datetimeNew': ['year', 'part', 'part', 'part?', 'part?', 'part?', 'part?'], 'datetimeNow': [], 'datetimeSecond': ['datetime'], 'datetimeToday': [], 'datetimeYear': ['datetime'],
    'jsonParse': ['json'], 'jsonStringify': ['any', 'indent?'],
    'mathAbs': ['number'], 'mathAcos': ['number'], 'mathAsin': ['number'], 'mathAtan': ['number'], 'mathAtan2': ['number', 'number'], 'mathCeil': ['number'], 'mathCos': ['number'], 'mathFloor': ['number'], 'mathLn': ['number'],
    'mathLog': ['number', 'number?'], 'mathMax': ['any*'], 'mathMin': ['any*'], 'mathPi': [], 'mathRandom': [], 'mathRound': ['number', 'digits?'], 'mathSign': ['number'], 'mathSin': ['number'], 'mathSqrt': ['number'], 'mathTan': ['number'],
    'numberParseInt': ['numtext', 'radix?'], 'numberParseFloat': ['numtext'], 'numberToFixed': ['number', 'digits?', 'boolean?'],
    'objectAssign': ['object', 'object'], 'objectCopy': ['object'], 'objectDelete': ['object', 'key'], 'objectGet': ['object', 'key', 'any?'], 'objectHas': ['object', 'key'], 'objectKeys': ['object'], 'objectNew': ['pair*'],
    'objectSet': ['object', 'key', 'any'],
    'regexEscape': ['string'], 'regexMatch': ['regex', 'string'], 'regexMatchAll': ['regex', 'string'], 'regexNew': ['pattern', 'flags?'], 'regexReplace': ['regex', 'string', 'string'], 'regexSplit': ['regex', 'string'],
    'schemaParse': ['schema*'], 'schemaParseEx': ['schema', 'object?', 'string?'], 'schemaTypeModel': [], 'schemaValidate': ['types', 'typename', 'any'], 'schemaValidateTypeModel': ['types'],
    'stringCharCodeAt': ['string', 'index'], 'stringEndsWith': ['string', 'string'], 'stringFromCharCode': ['code*'], 'stringIndexOf': ['string', 'string', 'index?'], 'stringLastIndexOf': ['string', 'string', 'index?'],
    'stringLength': ['string'], 'stringLower': ['string'], 'stringNew': ['any'], 'stringRepeat': ['string', 'count'], 'stringReplace': ['string', 'string', 'string'], 'stringSlice': ['string', 'index', 'index?'],
    'stringSplit': ['string', 'string'], 'stringStartsWith': ['string', 'string'], 'stringTrim': ['string'], 'stringUpper': ['string'],
    'systemBoolean': ['any'], 'systemCompare': ['any', 'any'], 'systemFetch': ['url'], 'systemGlobalGet': ['name', 'any?'], 'systemGlobalSet': ['name', 'any'], 'systemIs': ['any', 'any'], 'systemLog': ['any'], 'systemLogDebug': ['any'],
    'systemPartial': ['function', 'any*'], 'systemType': ['any'], 'urlEncode': ['string'], 'urlEncodeComponent': ['string'],
}

NUMBER = [0, 1, -1, 2, 7, 10, -5, 255, 999999999999999, -999999999999999, 3]
INDEX = [0, 1, 2, -1, 3, 5, 2.5]
DT = datetime.datetime(2024, 2, 29, 12, 30, 45, 678000)

POOL = {
    'array': [[1, 2, 3], [], ['a', 1, None], [3, 1, 2, 1], [[1], {'a': 1}], [0], [True, 1, 0, False]],
    'index': INDEX, 'size': [0, 1, 3, -1, 2.5], 'count': [1, 2, 0, 3, -1, 1.5], 'digits': [0, 1, 2, 5, -1, 15, 22, 400], 'radix': [10, 2, 16, 36, 8, 1, 37, 0], 'indent': [1, 2, 4, 0, -1], 'number': NUMBER,
    'year': [2024, 100, 99, 1970, 9999, 2023.5], 'part': [1, 2, 12, 0, -1, 13, 29, 31, 60, 1000, 10000, -10000], 'code': [65, 97, 0, 8364, -1, 128512, 1114112],
    'any': [1, 0, 'a', None, True, [1, 2], {'a': 1}, 2, -0.5, '', False],
    'string': ['abcabc', '', 'a', 'b', 'ab', ' x ', 'é'], 'key': ['a', 'b', ''], 'name': ['a', 'b'], 'field': ['a', 'c'], 'boolean': [True, False, 1, 0, 'x', None],
    'object': [{'a': 1, 'b': 2}, {}, {'a': [1, {'x': 2}]}, {'b': 0}], 'numtext': ['12', '1010', 'ff', '1.5', '', 'x', '-3', '1e3', ' 5 ', '7zz'],
    'json': ['[1, 2.0, 1.5]', '{"a": 1}', '1', 'x', '', '"s"', 'null', '1e5'], 'iso': ['2024-02-29', '2024-02-29T12:30:45Z', '2024-02-29T12:30:45.678+01:00', 'x', '', '2024-02-30'],
    'datetime': [DT, datetime.date(2024, 2, 29), datetime.datetime(1969, 12, 31, 23, 59, 59, 999000)],
    'pair': ['a', 1, 'b', 2, 'c', None], 'csv': ['a,b\n1,2\n3,4', 'a\n1', '', 'x'], 'pattern': ['a', '(', 'a(b)?'], 'flags': ['i', '', 'm', 'q', None], 'url': ['u'],
    'schema': ['struct A\n  int a', 'typedef int(>= 0) B', 'x', ''], 'typename': ['A', 'B', 'X'],
    'types': [{'A': {'struct': {'name': 'A', 'members': [{'name': 'a', 'type': {'builtin': 'int'}}]}}, 'B': {'typedef': {'name': 'B', 'type': {'builtin': 'int'}, 'attr': {'gte': 0, 'lt': 10}}}}, {}],
    'data': [[{'a': 1, 'b': 2}, {'a': 1, 'b': 3}, {'a': 2, 'b': 2}], [], [{'a': 'x', 'b': 1}, {'a': None}, {'b': 0}], [{'a': 3}, {'a': 1}, {'a': 2}], [{'a': '1'}, {'a': 1}, {'a': True}]],
    'expr': ['a', 'a == 1', 'b + 1', 'a < b', '1', '(', 'x'], 'variables': [{'x': 1}, None, {'a': 0}], 'sorts': [[['a']], [['a', True], ['b']], [], [['b', 1], ['a', 0]], [['b', 0]]], 'fields': [['a'], None, ['a', 'b'], []],
    'aggregation': [{'categories': ['a'], 'measures': [{'field': 'b', 'function': f}]} for f in ('sum', 'average', 'count', 'max', 'min', 'stddev')] + [{'measures': [{'field': 'a', 'function': 'sum'}]}, {}],
}
WRONG = [None, True, 'x', [], {}, DT, 1]


def kind(k):
    return k.rstrip('?*')


def pool(k):
    return POOL[k]


def has_number(v):
    if isinstance(v, bool):
        return False
    if isinstance(v, (int, float)):
        return v == int(v)
    if isinstance(v, (list, tuple)):
        return any(has_number(x) for x in v)
    if isinstance(v, dict):
        return any(has_number(x) for x in v.values())
    return False


def spell(v, f):
    """A deep copy of v with every integral number spelled by f"""
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        return f(v) if v == int(v) else v
    if isinstance(v, list):
        return [spell(x, f) for x in v]
    if isinstance(v, dict):
        return {k: spell(x, f) for k, x in v.items()}
    return copy.copy(v) if isinstance(v, (list, dict)) else v
