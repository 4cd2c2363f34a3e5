PROPERTY = 'C33'
NEEDS = 'a sequence which changes its length between two accesses of one view'
BREAKS = 'the view keeps the positions computed at the first access'
EDITS = [('epsilon/view.py', """    def _getIndices(self):
        start, stop, step = self.bounds.indices(len(self.sequence))
        indices = six.moves.range(start, stop, step)
        return indices
""", """    _indices = None

    def _getIndices(self):
        if self._indices is None:
            start, stop, step = self.bounds.indices(len(self.sequence))
            self._indices = six.moves.range(start, stop, step)
        return self._indices
""")]
DEMO = '''
import sys
from epsilon.view import SlicedView
l = [1, 2, 3]
v = SlicedView(l, slice(1, None))
assert len(v) == 2
l.append(4)
sys.exit(len(v) != 3)
'''
