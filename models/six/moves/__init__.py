import builtins
range = builtins.range
xrange = builtins.range
map = builtins.map
filter = builtins.filter
zip = builtins.zip
input = builtins.input
intern = lambda s: s
cStringIO = None
from functools import reduce
