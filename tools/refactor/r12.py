U='unrepr.py';V='__init__.py'
R=[
('un-def',[(U,"from  ast import literal_eval as unrepr","import ast\n\ndef unrepr(text):\n    value = ast.literal_eval(text)\n    return value\n")]),
('ve-loop',[(V,"""    return versions.Version(
        packageName,
        *map(int, re.match(r"[0-9.]*", versionString).group().split(".")[:3]))""","""    match = re.match(r"(\\d+)\\.(\\d+)\\.(\\d+)", versionString)
    major, minor, micro = [int(number) for number in match.groups()]
    return versions.Version(packageName, major, minor, micro)""")]),
('ve-loop2',[(V,"""    return versions.Version(
        packageName,
        *map(int, re.match(r"[0-9.]*", versionString).group().split(".")[:3]))""","""    numbers = re.findall(r"[0-9]+", versionString)[:3]
    return versions.Version(packageName, *[int(n) for n in numbers])""")]),
]
