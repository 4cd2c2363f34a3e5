"""traceback: what is printed is not looked at."""
import sys


def print_exc(limit=None, file=None, chain=True):
    pass


print_exception = print_tb = print_last = print_stack = lambda *a, **k: None


def format_exc(limit=None, chain=True):
    return 'Traceback'


def format_exception(*a, **k):
    return ['Traceback']


def extract_tb(*a, **k):
    return []


def extract_stack(*a, **k):
    return []
