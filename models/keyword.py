from verif import term
kwlist = ['False', 'None', 'True', 'and', 'as', 'assert', 'async', 'await', 'break', 'class', 'continue', 'def', 'del',
          'elif', 'else', 'except', 'finally', 'for', 'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal',
          'not', 'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield']
softkwlist = ['_', 'case', 'match', 'type']
_set = frozenset(kwlist)


def iskeyword(s):
    return s in _set
