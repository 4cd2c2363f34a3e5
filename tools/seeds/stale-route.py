PROPERTY = 'C08'
NEEDS = 'a box which already carries a route label sent through a route connected to None'
BREAKS = 'a route connected to no remote route strips a label the box had'
EDITS = [('epsilon/amprouter.py', """        if self.remoteRouteName is not None:
            box[_ROUTE] = self.remoteRouteName
""", """        box.pop(_ROUTE, None)
        if self.remoteRouteName is not None:
            box[_ROUTE] = self.remoteRouteName
""")]
DEMO = '''
import sys
from epsilon.amprouter import Router
class S(object):
    def sendBox(self, box):
        self.box = dict(box)
class R(object):
    def startReceivingBoxes(self, s):
        pass
s = S()
r = Router()
r.startReceivingBoxes(s)
route = r.bindRoute(R(), None)
route.connectTo(None)
route.sendBox({'_route': 'inner', 'x': 'y'})
sys.exit(s.box != {'_route': 'inner', 'x': 'y'})
'''
