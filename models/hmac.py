def compare_digest(a, b):
    return a == b
