"""literal_eval: the value of a literal, whatever it is; `evaluated` lists the texts, `results` what they give."""
evaluated = []
results = []


def literal_eval(node_or_string):
    evaluated.append(node_or_string)
    r = results.pop(0)
    if isinstance(r, BaseException):
        raise r
    return r
