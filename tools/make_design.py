"""
Puts tables into DESIGN.md between the marks: python3 tools/make_design.py NAME < TABLE
"""
import os
import re
import sys

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'DESIGN.md')
s = open(path, encoding='utf-8').read()
name = sys.argv[1]
body = sys.stdin.read().strip()
s, n = re.subn(rf'(<!-- {name} -->\n).*?(<!-- /{name} -->)', lambda m: f'{m[1]}{body}\n{m[2]}', s, flags=re.S)
assert n == 1, name
open(path, 'w', encoding='utf-8').write(s)
