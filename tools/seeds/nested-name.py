PROPERTY = 'C54'
NEEDS = 'a package which holds a directory whose path repeats the name of the package'
BREAKS = 'the files of that directory are listed under the wrong path'
EDITS = [('epsilon/setuphelper.py', '                D.append(os.path.join(dirpath[len(package)+1:], filename))',
          "                D.append(os.path.join(dirpath.replace(package + '/', '').replace(package, ''), filename))")]
DEMO = '''
import io, os, shutil, sys, tempfile
from epsilon import setuphelper
work = tempfile.mkdtemp()
try:
    os.chdir(work)
    os.makedirs('pkg/data/pkg')
    for name in ('pkg/__init__.py', 'pkg/data/pkg/x.txt'):
        open(name, 'w').close()
    given = {}
    class Dist(object):
        commands = []
    def setup(**kw):
        given.update(kw)
        return Dist()
    setuphelper.setup = setup
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        setuphelper.autosetup()
    finally:
        sys.stdout = out
    ok = given['package_data'] == {'pkg': ['data/pkg/x.txt']}
finally:
    os.chdir('/')
    shutil.rmtree(work)
sys.exit(0 if ok else 1)
'''
