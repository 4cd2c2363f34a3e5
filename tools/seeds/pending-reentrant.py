PROPERTY = 'C36'
NEEDS = 'a waiter which registers again while it is being notified'
BREAKS = 'a waiter registered during the firing is fired by it'
EDITS = [('epsilon/pending.py', """    def callback(self, result):
        l = self.listeners
        self.listeners = []
        for d in l:
            d.callback(result)
""", """    def callback(self, result):
        l = self.listeners
        while l:
            l.pop(0).callback(result)
""")]
DEMO = '''
import sys
from epsilon.pending import PendingEvent
ev = PendingEvent()
log = []
def again(r):
    if len(log) < 5:
        log.append(r)
        ev.deferred().addCallback(again)
ev.deferred().addCallback(again)
ev.callback(1)
sys.exit(len(log) != 1)
'''
