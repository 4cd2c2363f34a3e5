J='juice.py'
O="""        return cmd.upper().strip().replace('-', '_')
"""
R=[
('n-re',[(J,O,"""        return re.sub('-', '_', cmd.upper().strip())
"""),(J,None,"import re\n")]),
('n-trans',[(J,O,"""        return cmd.strip().upper().translate(str.maketrans('-', '_'))
""")]),
('n-trans2',[(J,O,"""        return cmd.strip().upper().translate({ord(u'-'): u'_'})
""")]),
('n-comp',[(J,O,"""        parts = cmd.strip().split('-')
        return '_'.join(parts).upper()
""")]),
('n-key',[(J,"""    lkey = six.ensure_str(key).lower().replace('-', '_')
    if keyword.iskeyword(lkey):
        return lkey.title()
    return lkey
""","""    parts = six.ensure_str(key).lower().split('-')
    name = '_'.join(parts)
    if name in keyword.kwlist:
        name = name.title()
    return name
""")]),
]
