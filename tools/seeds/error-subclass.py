PROPERTY = 'C14'
NEEDS = 'a responder which fails with a subclass of a declared error'
BREAKS = 'the error is sent with the wrong code'
EDITS = [('epsilon/juice.py', 'code = command.allErrors[key]',
          "code = command.allErrors.get(error.type, 'UNHANDLED')")]
DEMO = '''
import sys
from epsilon import juice
class Declared(Exception): pass
class Narrower(Declared): pass
class C(juice.Command):
    commandName = 'Cee'
    errors = {Declared: 'DECLARED'}
class D(juice.DispatchMixin):
    def command_CEE(self):
        raise Narrower('why')
    command_CEE.command = C
codes = []
D().dispatchCommand(None, 'Cee', juice.Box()).addErrback(lambda f: codes.append(f.value.errorCode))
sys.exit(0 if codes == ['DECLARED'] else 1)
'''
