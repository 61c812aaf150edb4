from lgr.char import Repertoire, CharBase, RangeChar
from oracles.lib import *

RULE = ('random histories of add_variant, del_variant and get_variants on the characters of a repertoire, compared with a map keyed by '
        '(code points, when, not-when); non-trivial when there are at least 3 steps')
BOUND = 'up to 14 steps, 3 characters, 4 variant sequences, 3 conditions each'
W = [None, None, 'w1', 'w2']
FIXED = [{'ops': [['add', 0, [98], None, None, 'blocked', 'c', ['1']], ['add', 0, [98], 'w1', None, 'allocatable', None, None],
                  ['add', 0, [98], None, None, 'x', None, None], ['del', 0, [98], None, None], ['del', 0, [98], None, None],
                  ['add', 0, [97], None, 'w1', 'valid', None, None], ['del', 0, [97], None, None], ['del', 0, [98], 'w1', None]]},
         {'ops': [['add', 0, [98], None, None, None, None, None], ['add', 0, [98], None, 'w1', None, None, None], ['add', 0, [98], None, 'w2', None, None, None],
                  ['add', 0, [98], 'w1', None, None, None, None], ['del', 0, [98], None, 'w1'], ['del', 0, [98], None, 'w1']]}]


def gen(rng):
    ops = []
    for i in range(rng.randint(2, 14)):
        k = rng.choice(['add', 'add', 'add', 'del', 'del', 'range'] if rng.random() < .2 else ['add', 'add', 'add', 'del', 'del'])
        c = rng.randrange(3)
        cp = rng.choice([[97], [98], [98, 97], [99]])
        w, nw = rng.choice(W), rng.choice(W)
        if k == 'add':
            ops.append(['add', c, cp, w, nw, rng.choice([None, 'blocked', 'valid']), rng.choice([None, 'note']), rng.choice([None, ['1'], ['1', '2']])])
        elif k == 'del':
            ops.append(['del', c, cp, w, nw])
        else:
            ops.append(['range', cp, w])
    return {'ops': ops}


def nontrivial(case):
    return len(case['ops']) >= 3


def valid(case):
    return all(o and ((o[0] == 'add' and len(o) == 8 and o[2]) or (o[0] == 'del' and len(o) == 5 and o[2]) or (o[0] == 'range' and len(o) == 3 and o[1]))
               for o in case['ops'])


CHARS = [[97], [98], [97, 98]]


def check(case):
    rep = Repertoire()
    for c in CHARS:
        rep.add_char(c)
    rep.add_range(0x70, 0x73)
    model = [dict(), dict(), dict()]
    for n, op in enumerate(case['ops']):
        if op[0] == 'range':
            for f in (lambda: rep.add_variant([0x71], op[1], when=op[2]), lambda: rep.del_variant([0x71], op[1], when=op[2])):
                r = try_(f)
                if r != ('exc', 'LGRFormatException'):
                    return 'a variant of a range member: %r' % (r,)
            if list(rep.get_variants([0x71])):
                return 'a range member has variants'
            continue
        i = op[1] % 3
        key = (tuple(op[2]), op[3], op[4])
        if op[0] == 'add':
            r = try_(lambda: rep.add_variant(CHARS[i], op[2], variant_type=op[5], when=op[3], not_when=op[4], comment=op[6],
                                             ref=list(op[7]) if op[7] is not None else None))
            if key in model[i]:
                if r != ('exc', 'VariantAlreadyExists'):
                    return '%r, present: %r' % (op, r)
            else:
                if r[0] != 'ok':
                    return '%r, absent: %r' % (op, r)
                model[i][key] = (op[5], op[6], op[7] or [])
        else:
            r = try_(lambda: rep.del_variant(CHARS[i], op[2], op[3], op[4]))
            if r != ('ok', key in model[i]):
                return '%r answered %r' % (op, r)
            model[i].pop(key, None)
        for j in range(3):
            ch = rep.get_char(CHARS[j])
            vs = list(ch.get_variants())
            got = [((tuple(v.cp), v.when, v.not_when), (v.type, v.comment, list(v.references))) for v in vs]
            if sorted(got, key=repr) != sorted(model[j].items(), key=repr):
                return 'after %r the variants of %s are %s, not %s' % (op, CHARS[j], got, model[j])
            if [g[0][0] for g in got] != sorted(g[0][0] for g in got):
                return 'after %r the variants of %s are not in ascending order: %s' % (op, CHARS[j], got)
            if ch.has_variant() != bool(model[j]):
                return 'after %r has_variant of %s is %s' % (op, CHARS[j], ch.has_variant())
            if sorted(map(repr, rep.get_variants(CHARS[j]))) != sorted(map(repr, vs)):
                return 'the repertoire disagrees with the character'
            for cp in ([97], [98], [98, 97], [99]):
                w = [k for k in model[j] if k[0] == tuple(cp)]
                g = rep.get_variant(CHARS[j], tuple(cp))
                if sorted([(tuple(v.cp), v.when, v.not_when) for v in (g or [])], key=repr) != sorted(w, key=repr):
                    return 'get_variant(%s, %s) gives %s' % (CHARS[j], cp, g)
            g = ch.get_reflexive_variants()
            if sorted([(tuple(v.cp), v.when, v.not_when) for v in g], key=repr) != sorted([k for k in model[j] if k[0] == tuple(CHARS[j])], key=repr):
                return 'reflexive variants of %s' % (CHARS[j],)
    return None
