PROPERTY = 'C42'
NEEDS = 'a signal whose entry is removed from the map while the service is running'
BREAKS = 'the handler which was there before is not put back'
EDITS = [('epsilon/spewer.py', '        for sig, handler in self.oldsigmap.items():\n            signal.signal(sig, handler)',
          '        for sig in self.sigmap:\n            signal.signal(sig, self.oldsigmap[sig])')]
DEMO = '''
import sys, signal
from epsilon.spewer import SignalService
before = signal.getsignal(signal.SIGUSR2)
handlers = {signal.SIGUSR2: lambda *a: None}
s = SignalService(handlers)
s.startService()
handlers.clear()
s.stopService()
sys.exit(0 if signal.getsignal(signal.SIGUSR2) == before else 1)
'''
