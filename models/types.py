from verif import (type_function as FunctionType, type_method as MethodType, type_module as ModuleType,
                   type_generator as GeneratorType, type_code as CodeType, type_NoneType as NoneType,
                   type_builtin_function_or_method as BuiltinFunctionType, type_mappingproxy as MappingProxyType,
                   type_cell as CellType, type_frame as FrameType, type_traceback as TracebackType)
LambdaType = FunctionType
BuiltinMethodType = BuiltinFunctionType


class SimpleNamespace(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def new_class(name, bases=(), kwds=None, exec_body=None):
    ns = {}
    if exec_body is not None:
        exec_body(ns)
    return type(name, bases, ns)
