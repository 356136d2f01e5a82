"""Shared by the harnesses."""
import glob
import io
import os
import re
import tokenize

REPO = os.environ.get('VP_REPO', '/repo')


def mined(lo, hi, cpp=True, py=(), cap=6, pad=1):
    """sizes around the integer literals of the current sources, within [lo, hi];
    a size-specific special case in the code is then inside the explored sizes"""
    found = set()
    files = []
    if cpp:
        files += glob.glob(os.path.join(REPO, 'riptide', 'cpp', '*.[ch]pp'))
    for p in files:
        with open(p, errors='replace') as f:
            s = f.read()
        s = re.sub(r'//.*', '', s)
        s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
        s = re.sub(r'"(\\.|[^"\\])*"', '', s)
        found.update(int(x) for x in re.findall(r'(?<![\w.])(\d+)(?![\w.])', s))
        found.update(1 << int(x) for x in re.findall(r'<<\s*(\d+)', s) if int(x) < 10)
    for p in py:
        try:
            with open(os.path.join(REPO, p)) as f:
                for t in tokenize.generate_tokens(f.readline):
                    if t.type == tokenize.NUMBER and re.fullmatch(r'\d+', t.string):
                        found.add(int(t.string))
        except (OSError, tokenize.TokenError, SyntaxError, IndentationError):
            pass
    out = set()
    for c in found:
        for d in range(-pad, pad + 1):
            if lo <= c + d <= hi:
                out.add(c + d)
    return sorted(out, reverse=False)[:cap] if cap and len(out) > cap else sorted(out)


def dims(pairs):
    return [dict(m=m, p=p) for m, p in pairs]


def types_of(module, *names):
    """built-in types as the module under test sees them"""
    b = module.__dict__['__builtins__']
    b = b if isinstance(b, dict) else b.__dict__
    return [b[n] for n in names]


def rel(a, b, eps=1e-9):
    """a and b > 0 agree to a relative eps"""
    from engine.core import band
    return band(a <= b * (1 + eps), a >= b * (1 - eps))
