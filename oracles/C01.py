from lgr.char import Repertoire
from lgr.exceptions import CharAlreadyExists, NotInLGR
from oracles.lib import *

RULE = ('random histories of add_char, del_char, add_range, del_range, get_char, add_variant on a repertoire, compared after every step with a '
        'map keyed by code point sequence; non-trivial when the history has at least 3 steps')
BOUND = 'up to 14 steps over 5 code points, sequences of up to 3'
FIXED = [
    {'ops': [['add', [97]], ['add', [97, 98]], ['add', [97]], ['del', [97]], ['get', [97, 98]], ['get', [97]], ['del', [97]]]},
    {'ops': [['add', [97, 98]], ['add', [97, 99]], ['add', [97]], ['get', [97, 99]], ['del', [97, 98]], ['get', [97, 99]], ['get', [97]]]},
    {'ops': [['del', [97]], ['get', [97]], ['range', 97, 100], ['add', [98]], ['del', [98]], ['add', [98]], ['get', [98]]]},
]


def gen(rng):
    ops = []
    for _ in range(rng.randint(3, 14)):
        k = rng.choice(['add'] * 6 + ['del'] * 4 + ['get'] * 2 + ['var', 'range', 'unrange'])
        if k in ('range', 'unrange'):
            a = 97 + rng.randrange(4)
            ops.append([k, a, a + 1 + rng.randrange(2)])
        else:
            ops.append([k, seqs(rng)])
    return {'ops': ops}


def nontrivial(case):
    return len(case['ops']) >= 3


def valid(case):
    return all(len(o) > 1 and all(o[1:]) and (o[0] not in ('range', 'unrange') or (len(o) == 3 and isinstance(o[1], int) and 97 <= o[1] < o[2] < 120))
               and (isinstance(o[1], list) or o[0] in ('range', 'unrange')) for o in case['ops'])


def check(case):
    rep = Repertoire()
    model = {}
    n = 0
    for op in case['ops']:
        k = op[0]
        before = {cp: char_view(c) for cp, c in model.items()}
        if k in ('range', 'unrange'):
            try:
                (rep.add_range if k == 'range' else rep.del_range)(op[1], op[2])
                ok = True
            except LGRException:
                ok = False
            cps = [(c,) for c in range(op[1], op[2] + 1)]
            if k == 'range':
                if ok:
                    if any(c in model for c in cps):
                        return '%r: a code point that is present was added again' % (op,)
                    for c in cps:
                        model[c] = rep.get_char(c)
                elif any(c not in model and c in rep for c in cps):
                    return '%r: refused, yet code points were added' % (op,)
            elif ok:
                for c in cps:
                    model.pop(c, None)
            elif any(c in model and c not in rep for c in cps):
                return '%r: refused, yet code points were deleted' % (op,)
        else:
            cp = tuple(op[1])
            if k == 'add':
                n += 1
                r = try_(lambda: rep.add_char(op[1], comment='c%d' % n, tag=['t%d' % n]))
                if cp in model:
                    if r != ('exc', 'CharAlreadyExists'):
                        return 'adding %s, present: %r' % (cp, r)
                else:
                    if r[0] != 'ok':
                        return 'adding %s, absent: %r' % (cp, r)
                    e = rep.get_char(op[1])
                    if tuple(e.cp) != cp or e.comment != 'c%d' % n or list(e.tags) != ['t%d' % n] or r[1] is not e:
                        return 'the entry stored for %s is not the one added' % (cp,)
                    model[cp] = e
            elif k == 'del':
                r = try_(lambda: rep.del_char(op[1]))
                if cp in model:
                    if r[0] != 'ok':
                        return 'deleting %s, present: %r' % (cp, r)
                    del model[cp]
                elif r != ('exc', 'NotInLGR'):
                    return 'deleting %s, absent: %r' % (cp, r)
            elif k == 'get':
                r = try_(lambda: rep.get_char(op[1]))
                r2 = try_(lambda: rep[cp])
                if cp in model:
                    if r[0] != 'ok' or r[1] is not model[cp] or r2[0] != 'ok' or r2[1] is not model[cp]:
                        return 'getting %s, present: %r %r' % (cp, r, r2)
                elif r != ('exc', 'NotInLGR') or r2 != ('exc', 'NotInLGR'):
                    return 'getting %s, absent: %r %r' % (cp, r, r2)
            elif k == 'var':
                r = try_(lambda: rep.add_variant(op[1], [120 + n]))
                n += 1
                if cp not in model and r != ('exc', 'NotInLGR'):
                    return 'adding a variant to %s, absent: %r' % (cp, r)
                if cp in model:
                    before[cp] = char_view(model[cp])
        got = [tuple(c.cp) for c in rep.all_repertoire()]
        if sorted(got) != sorted(model):
            return 'after %r the entries are %s, not %s' % (op, sorted(got), sorted(model))
        if len(rep) != len(model):
            return 'after %r the length is %d, not %d' % (op, len(rep), len(model))
        for c in rep.all_repertoire():
            if model[tuple(c.cp)] is not c:
                return 'after %r the entry of %s is another object' % (op, c.cp)
        for cp, c in model.items():
            if cp in before and char_view(c) != before[cp]:
                return 'after %r the entry of %s changed' % (op, cp)
            if cp not in rep or c not in rep or rep.get_char(cp) is not c or (len(cp) == 1 and (cp[0] not in rep or rep[cp[0]] is not c)) or rep[c] is not c:
                return 'after %r lookup of %s disagrees' % (op, cp)
        for a in range(97, 102):
            for cp in ((a,), (a, 97), (a, 98), (a, 97, 98)):
                if (cp in rep) != (cp in model):
                    return 'after %r membership of %s is %s' % (op, cp, cp in rep)
        it = [tuple(c.cp) for c in rep]
        if len(set(it)) != len(it) or not set(it) <= set(model):
            return 'after %r iteration gives %s' % (op, it)
    return None
