ascii_lowercase = 'abcdefghijklmnopqrstuvwxyz'
ascii_uppercase = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
ascii_letters = ascii_lowercase + ascii_uppercase
digits = '0123456789'
hexdigits = digits + 'abcdefABCDEF'
octdigits = '01234567'
whitespace = ' \t\n\r\v\f'


def capwords(s, sep=None):
    return (sep or ' ').join([x.capitalize() for x in s.split(sep)])
