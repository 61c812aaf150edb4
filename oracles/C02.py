from lgr.char import Repertoire, RangeChar, CharSequence
from oracles.lib import *

RULE = ('random repertoires of single code points, sequences and ranges (some entries deleted again, some given variants), enumerated with '
        '__iter__, all_repertoire and get_chars_from_prefix; non-trivial when there are at least 3 entries')
BOUND = 'up to 12 entries over 16 code points, sequences of up to 4'
FIXED = [{'cps': [[97], [97, 98], [97, 98, 99], [97, 99], [98]], 'ranges': [[100, 103], [104, 106]], 'vars': [[97, 98], [97]], 'dels': []},
         {'cps': [[101, 97], [100, 97, 98], [99]], 'ranges': [[100, 103]], 'vars': [[99]], 'dels': [[97]]}]


def gen(rng):
    cps, ranges, used = [], [], set()
    for _ in range(rng.randint(0, 2)):
        a = 97 + rng.randrange(10)
        b = a + rng.randint(1, 3)
        if not any(c in used for c in range(a, b + 1)):
            used |= set(range(a, b + 1))
            ranges.append([a, b])
    for _ in range(rng.randint(1, 10)):
        s = [97 + rng.randrange(rng.choice([3, 12])) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
        if len(s) == 1 and s[0] in used:
            continue
        if s not in cps:
            cps.append(s)
    rng.shuffle(cps)
    return {'cps': cps, 'ranges': ranges, 'vars': [c for c in cps if rng.random() < .4], 'dels': [c for c in cps if rng.random() < .15]}


def nontrivial(case):
    return len(case['cps']) + len(case['ranges']) >= 3


def valid(case):
    return all(case['cps']) and all(len(r) == 2 and 97 <= r[0] < r[1] < 130 for r in case['ranges'])


def check(case):
    rep = Repertoire()
    for r in case['ranges'][:1]:
        rep.add_range(*r)
    for c in case['cps']:
        if tuple(c) in rep:
            return None
        rep.add_char(c)
    for r in case['ranges'][1:]:
        rep.add_range(*r)
    present = {tuple(c) for c in case['cps']}
    vars_ = set()
    for v in case['vars']:
        if tuple(v) in present:
            rep.add_variant(v, [200])
            vars_.add(tuple(v))
    for d in case['dels']:
        if tuple(d) in present:
            rep.del_char(d)
            present.discard(tuple(d))
    vars_ &= present
    want = sorted(list(present) + [(r[0],) for r in case['ranges']], key=lambda c: (c[0], len(c)))
    got = [tuple(c.cp) for c in rep]
    if sorted(got) != sorted(want):
        return 'iteration yields %s, not %s' % (got, want)
    if [(c[0], len(c)) for c in got] != [(c[0], len(c)) for c in want]:
        return 'iteration is not ordered: %s' % (got,)
    members = {(c,) for r in case['ranges'] for c in range(r[0], r[1] + 1)}
    for seq in (True, False):
        for rg in (True, False):
            w = sorted([c for c in present if seq or len(c) == 1] + (sorted(members) if rg else []))
            g = sorted(tuple(c.cp) for c in rep.all_repertoire(include_sequences=seq, include_ranges=rg))
            if w != g:
                return 'all_repertoire(%s, %s) yields %s, not %s' % (seq, rg, g, w)
    if [tuple(c.cp) for c in rep.all_repertoire()] and sorted(tuple(c.cp) for c in rep.all_repertoire()) != sorted(present | members):
        return 'all_repertoire() is incomplete'
    for cp in range(95, 125):
        for ov in (False, True):
            w = [c for c in (vars_ if ov else present | members) if c[0] == cp]
            some = any(c[0] == cp for c in present | members)
            r = try_(lambda: [tuple(c.cp) for c in rep.get_chars_from_prefix(cp, only_variants=ov)])
            if not some:
                if r != ('exc', 'NotInLGR'):
                    return 'get_chars_from_prefix(%d): %r' % (cp, r)
                continue
            if r[0] != 'ok' or sorted(r[1]) != sorted(w):
                return 'get_chars_from_prefix(%d, %s) gives %r, not %s' % (cp, ov, r, w)
            if any(len(a) < len(b) for a, b in zip(r[1], r[1][1:])):
                return 'get_chars_from_prefix(%d, %s) is not longest first: %r' % (cp, ov, r)
            if not ov and r != try_(lambda: [tuple(c.cp) for c in rep.get_chars_from_prefix(cp)]):
                return 'get_chars_from_prefix(%d) by default' % cp
    return None
