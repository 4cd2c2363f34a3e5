import os


class FilePath(object):
    """a path of the abstract file system; equality is equality of the path"""

    def __init__(self, path, alwaysCreate=False):
        self.path = path if not isinstance(path, str) or path[:1] == '/' else os.path.abspath(path)

    def __eq__(self, o):
        return isinstance(o, FilePath) and self.path == o.path

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.path)

    def __fspath__(self):
        return self.path

    def child(self, name):
        return self.__class__(os.path.join(self.path, name))

    def sibling(self, name):
        return self.parent().child(name)

    def parent(self):
        return self.__class__(os.path.dirname(self.path))

    def basename(self):
        return os.path.basename(self.path)

    def dirname(self):
        return os.path.dirname(self.path)

    def exists(self):
        return os.path.exists(self.path)

    def isdir(self):
        return os.path.isdir(self.path)

    def isfile(self):
        return os.path.isfile(self.path)

    def islink(self):
        return os.path.islink(self.path)

    def getsize(self):
        return os.stat(self.path).st_size

    def listdir(self):
        return os.listdir(self.path)

    def children(self):
        return [self.child(n) for n in self.listdir()]

    def walk(self, descend=None):
        yield self
        if self.isdir():
            for c in self.children():
                if descend is None or descend(c):
                    for x in c.walk(descend):
                        yield x
                else:
                    yield c

    def temporarySibling(self, extension=''):
        return self.sibling('_random_' + self.basename() + extension)

    def makedirs(self, ignoreExistingDirectory=False):
        os.makedirs(self.path, exist_ok=ignoreExistingDirectory)

    def createDirectory(self):
        os.mkdir(self.path)

    def remove(self, changed=True):
        if self.isdir() and not self.islink():
            for c in self.children():
                c.remove()
            os.rmdir(self.path)
        else:
            os.remove(self.path)

    def open(self, mode='r'):
        return open(self.path, mode.replace('b', '') + 'b')

    def getContent(self):
        with self.open() as f:
            return f.read()

    def setContent(self, content, ext='.new'):
        with self.open('w') as f:
            f.write(content)
