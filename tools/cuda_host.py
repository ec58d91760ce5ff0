"""Host side of a CUDA source as plain C++: launches become calls, everything else stays."""
import re
import sys

src, out = sys.argv[1:3]
text = open(src).read()


def spans(t):
    """Comments and literals, which are left alone."""
    return [m.span() for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', t, re.S)]


quiet = spans(text)
result, pos = "", 0
for m in re.finditer(r"([A-Za-z_][\w:]*(?:\s*<[^<>;(){}]*>)?)\s*<<<", text):
    if m.start() < pos or any(a <= m.start() < b for a, b in quiet):
        continue
    end = text.index(">>>", m.end())
    while any(a <= end < b for a, b in quiet):
        end = text.index(">>>", end + 1)
    result += text[pos:m.start()] + "::fibcu::launch(" + m.group(1) + ", " + text[m.end():end] + ")"
    pos = end + 3
result += text[pos:]
with open(out, "w") as f:
    f.write('#line 1 "%s"\n' % src + result)
