from lgr.core import LGR
from lgr.char import RangeChar
from oracles.lib import *

RULE = ('random histories of add_range, del_range, add_cp, expand_range, expand_ranges and check_range on a set of rules, compared with a map '
        'from code point to (range, attributes); non-trivial when there are at least 2 steps')
BOUND = 'up to 10 steps over 14 code points'
FIXED = [{'ops': [['range', 100, 103], ['range', 99, 104]]}, {'ops': [['range', 100, 103], ['range', 101, 102]]},
         {'ops': [['range', 100, 103], ['range', 103, 105]]}, {'ops': [['range', 100, 103], ['range', 98, 100]]},
         {'ops': [['range', 100, 103], ['range', 104, 105], ['range', 98, 99], ['check', 96, 106]]},
         {'ops': [['range', 100, 103], ['unrange', 100, 102], ['unrange', 100, 103]]},
         {'ops': [['range', 100, 103], ['expand', 100, 103], ['check', 99, 104], ['unrange', 100, 103]]},
         {'ops': [['range', 100 + 4 * i, 102 + 4 * i] for i in range(14)] + [['expandall']]},
         {'ops': [['cp', 101], ['range', 100, 103], ['check', 99, 104]]},
         {'ops': [['range', 108, 110], ['range', 100, 103], ['expandall'], ['check', 99, 111]]},
         {'ops': [['udb'], ['cp', 101], ['check', 0x5e, 0x66]]}, {'ops': [['udb'], ['lax'], ['check', 0x5e, 0x66], ['rawcheck', 0x5e, 0x66]]}]


def ATTR(n):
    h = n * 7 % 11
    return {'comment': 'n%d' % n if h % 3 else None, 'ref': ['0'] if h & 1 else [], 'tag': [['t'], [], ['t', 'u']][(h >> 1) % 3],
            'when': 'w' if h % 4 == 1 else None, 'not_when': 'x' if h % 4 == 2 else None}


def gen(rng):
    ops = []
    if rng.random() < .3:
        ops.append(['udb'])
    if rng.random() < .3:
        ops.append(['lax'])
    for _ in range(rng.randint(2, 10)):
        a = 97 + rng.randrange(12)
        b = a + rng.choice([1, 1, 2, 3, 5])
        k = rng.choice(['range'] * 5 + ['unrange'] * 3 + ['cp', 'expand', 'check', 'expandall', 'rawcheck'])
        if k == 'unrange' and ops and rng.random() < .7:
            rs = [o for o in ops if o[0] == 'range']
            if rs:
                a, b = rng.choice(rs)[1:]
        ops.append([k] if k == 'expandall' else [k, a] if k == 'cp' else [k, a, b])
    return {'ops': ops}


def nontrivial(case):
    return len(case['ops']) > 1


def valid(case):
    return all(o and (len(o) == {'udb': 1, 'lax': 1, 'expandall': 1, 'cp': 2}.get(o[0], 3)) and all(60 <= x < 200 for x in o[1:])
               and (len(o) < 3 or o[1] < o[2]) for o in case['ops'])


def check(case):
    from lgr.utils import is_idna_valid_cp_or_sequence
    lgr = LGR()
    lgr.reference_manager.add_reference('r')
    model = {}
    n = 0
    for op in case['ops']:
        k = op[0]
        refused = False
        if k == 'udb':
            lgr.unicode_database = unidb()
        elif k == 'lax':
            lgr.raise_on_invalid_property = False
        elif k == 'cp':
            r = try_(lambda: lgr.add_cp([op[1]]))
            if r[0] == 'ok':
                model[op[1]] = (None, None)
        elif k == 'range':
            a, b = op[1:]
            n += 1
            cps = range(a, b + 1)
            r = try_(lambda: lgr.repertoire.add_range(a, b, **ATTR(n)))
            if any(c in model and model[c][0] for c in cps):
                if r != ('exc', 'RangeAlreadyExists'):
                    return '%r overlaps a range: %r' % (op, r)
            elif any(c in model for c in cps):
                if r[0] != 'exc':
                    return '%r overlaps a code point: %r' % (op, r)
            else:
                if r[0] != 'ok':
                    return '%r: %r' % (op, r)
                for c in cps:
                    model[c] = ((a, b), n)
        elif k == 'unrange':
            a, b = op[1:]
            r = try_(lambda: lgr.del_range(a, b))
            if any(v[0] == (a, b) for v in model.values()):
                if r[0] != 'ok':
                    return '%r, a range: %r' % (op, r)
                for c in range(a, b + 1):
                    del model[c]
            elif r != ('exc', 'NotInLGR'):
                return '%r, not a range: %r' % (op, r)
        elif k in ('expand', 'expandall'):
            if k == 'expandall':
                rs = {v[0] for v in model.values() if v[0]}
                r = try_(lambda: lgr.expand_ranges())
            else:
                rs = {(op[1], op[2])}
                r = try_(lambda: lgr.expand_range(op[1], op[2]))
                if not any(v[0] == (op[1], op[2]) for v in model.values()):
                    rs = set()
                    if r[0] != 'exc':
                        return '%r, not a range: %r' % (op, r)
                    r = ('ok', None)
            if r[0] != 'ok':
                return '%r: %r' % (op, r)
            for c in model:
                if model[c][0] in rs:
                    model[c] = (None, model[c][1])
        elif k in ('check', 'rawcheck'):
            a, b = op[1:]
            keep = lgr.raise_on_invalid_property
            v1 = lgr_view(lgr)
            val = LGR()
            for c in range(a, b + 1, 2):
                val.add_cp([c])
            for vr in ([None, val] if k == 'check' else [None]):
                r = try_(lambda: lgr.check_range(a, b, vr))
                if r[0] != 'ok':
                    return '%r: %r' % (op, r)
                if [x[0] for x in r[1]] != list(range(a, b + 1)):
                    return '%r reports on %s' % (op, [x[0] for x in r[1]])
                for c, st in r[1]:
                    w = None
                    if lgr.unicode_database is not None and not is_idna_valid_cp_or_sequence([c], lgr.unicode_database)[0]:
                        w = 'CharInvalidIdnaProperty'
                    elif vr is not None and (c - a) % 2:
                        w = 'NotInRepertoire'
                    elif c in model:
                        w = 'CharAlreadyExists'
                    if (type(st).__name__ if st is not None else None) != w:
                        return '%r reports %r for %d, not %s' % (op, st, c, w)
            if lgr.raise_on_invalid_property != keep or lgr_view(lgr) != v1:
                return '%r changed the rules' % (op,)

            class Boom(Exception):
                pass

            class Bad(object):
                def check_cp(self, cp):
                    raise Boom()
            try:
                lgr.check_range(a, b, Bad())
            except Boom:
                pass
            if lgr.raise_on_invalid_property != keep or lgr_view(lgr) != v1:
                return '%r changed the rules on an error' % (op,)
            udb = lgr.unicode_database
            if udb is not None:
                class BadDb(object):
                    def __getattr__(self, n):
                        raise Boom()
                lgr._unicode_database = BadDb()
                try:
                    lgr.check_range(a, b)
                except Boom:
                    pass
                lgr._unicode_database = udb
                if lgr.raise_on_invalid_property != keep:
                    return '%r left the validity mode changed after an error' % (op,)
        got = {c.cp[0]: ((c.first_cp, c.last_cp) if isinstance(c, RangeChar) else None, c) for c in lgr.repertoire.all_repertoire()}
        if set(got) != set(model):
            return 'after %r the members are %s, not %s' % (op, sorted(got), sorted(model))
        for c, (rg, note) in model.items():
            ch = got[c][1]
            if got[c][0] != rg:
                return 'after %r %d belongs to %s, not %s' % (op, c, got[c][0], rg)
            if note and dict(comment=ch.comment, ref=list(ch.references), tag=list(ch.tags), when=ch.when, not_when=ch.not_when) != ATTR(note):
                return 'after %r the attributes of %d changed' % (op, c)
        if sorted(set(map(tuple, lgr.repertoire.ranges))) != sorted({v[0] for v in model.values() if v[0]}) or \
                len(set(lgr.repertoire.ranges)) != len(lgr.repertoire.ranges):
            return 'after %r the ranges are %s' % (op, lgr.repertoire.ranges)
    return None
