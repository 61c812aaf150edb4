from lgr.utils import collapse_codepoints, format_cp_collapsed
from oracles.lib import *
import re

RULE = 'random non-empty collections of distinct code points in random order; non-trivial when there are at least 3'
BOUND = 'up to 20 code points below 0x10FFFF'
FIXED = [{'cps': [5]}, {'cps': [3, 1, 2]}, {'cps': [0, 1, 3, 4, 5, 9]}, {'cps': [0x10ffff, 0x10fffe]}, {'cps': [0]}]


def gen(rng):
    b = rng.choice([0, 97, 0x10ffff - 25, 0xfffe])
    n = rng.randint(1, 20)
    c = rng.sample(range(b, b + rng.choice([n, n + 2, 25]) if b < 0x100000 else b + 25), n) if n <= 20 else []
    return {'cps': c}


def nontrivial(case):
    return len(case['cps']) > 2


def valid(case):
    return len(case['cps']) > 0


def check(case):
    cps = case['cps']
    keep = list(cps)
    for arg in (list(cps), set(cps), tuple(reversed(cps)), sorted(cps)):
        r = [tuple(x) for x in collapse_codepoints(arg)]
        got = [c for a, b in r for c in range(a, b + 1)]
        if any(a > b for a, b in r) or got != sorted(cps):
            return 'collapse_codepoints(%r) = %r' % (arg, r)
        if any(n[0] <= p[1] + 1 for p, n in zip(r, r[1:])):
            return 'not maximal: collapse_codepoints(%r) = %r' % (arg, r)
    if cps != keep:
        return 'the input changed'
    for arg in (list(cps), set(cps)):
        t = format_cp_collapsed(arg)
        got = []
        for w in t.split(' '):
            m = re.match(r'^U\+([0-9A-F]{4,6})(?:-U\+([0-9A-F]{4,6}))?$', w)
            if not m:
                return 'text %r' % t
            a = int(m.group(1), 16)
            got += range(a, int(m.group(2), 16) + 1 if m.group(2) else a + 1)
        if got != sorted(cps):
            return 'the text %r does not list the code points' % t
    return None
