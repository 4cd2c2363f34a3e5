"""C44 is decided by absint/names.py (check.py delegates to it); this file marks it as claimed."""
