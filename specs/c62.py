"""C62: reading a literal back gives its value and runs nothing."""
import ast
import _pybuiltins
from verif import sym_str, choose, expect, expect_eq, cover
from anyval import Any
from epsilon.unrepr import unrepr

COVER = ('value', 'refused')


def check_unrepr():
    executed = []
    _pybuiltins._executed.append(executed)
    n = choose((1, 2), 'texts')
    for i in range(n):
        text = choose((sym_str('text%d' % i), '{1: [2, (3, None)]}', '__import__("os").getcwd()', ''), 'text %d' % i)
        r = choose((Any(), None, 0, ValueError('malformed'), SyntaxError('invalid'), MemoryError(), RecursionError()), 'result %d' % i)
        ast.results.append(r)
        bad = isinstance(r, BaseException)
        try:
            got = unrepr(text)
        except Exception as e:
            expect(executed == [], 'no text is run as a program')
            expect(bad and e is r, 'what is no literal is refused, and nothing else')
            cover('refused')
        else:
            expect(executed == [], 'no text is run as a program')
            expect(not bad, 'what is no literal is refused')
            expect(got is r, 'the value of the literal')
            cover('value')
        expect(len(ast.evaluated) == i + 1, 'each text is read, once')
        expect_eq(ast.evaluated[i], text, 'as it was given')
