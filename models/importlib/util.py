"""find_spec over a table of installed modules: name -> path (a directory for a package)."""
installed = {}


class ModuleSpec(object):
    def __init__(self, name, origin, locations):
        self.name, self.origin, self.submodule_search_locations = name, origin, locations
        self.has_location = origin is not None
        self.loader = None
        self.parent = name if locations is not None else name.rpartition('.')[0]


def find_spec(name, package=None):
    if name not in installed:
        return None
    p = installed[name]
    if p[-3:] == '.py':
        return ModuleSpec(name, p, None)
    return ModuleSpec(name, p + '/__init__.py', [p])
