__version__ = version = '0.8.0'
