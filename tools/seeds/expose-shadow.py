PROPERTY = 'C30'
NEEDS = 'a subclass which overrides an exposed method without exposing it, below a second base class'
BREAKS = 'the overridden base method is handed out'
EDITS = [('epsilon/expose.py', """                        if name in seen:
                            raise MethodNotExposed()
                        return value.__get__(obj, T)
                seen[name] = True
""", """                        if name in seen:
                            raise MethodNotExposed()
                        return value.__get__(obj, T)
                if isinstance(value, FunctionType):
                    seen[name] = True
""")]
DEMO = '''
import sys
from epsilon.expose import Exposer, MethodNotExposed
e = Exposer('demo')
class Base(object):
    @e.expose('k')
    def f(self):
        return 1
class Sub(Base):
    f = None
try:
    e.get(Sub(), 'k')
except MethodNotExposed:
    sys.exit(0)
sys.exit(1)
'''
