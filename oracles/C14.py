from lgr.metadata import ReferenceManager
from oracles.lib import *

RULE = ('random histories of add_reference (with automatic, numeric, textual and malformed identifiers), del_reference, update_reference and '
        'lookups, compared with a map from text to fields; non-trivial when there are at least 3 steps')
BOUND = 'up to 14 steps, 12 identifiers'
IDS = ['0', '1', '2', '3', '00', '01', 'A', 'A-1', 'SOME.LONG_ID:3', 0, 1, 2, 3, 5, 'a', 'x y', '-1', -1, '', '0\n', 'É', '+']
FIXED = [{'ops': [['add', None], ['add', None], ['del', 0], ['add', None], ['add', '1'], ['add', 1], ['add', 'a b']]},
         {'ops': [['add', 1], ['add', None], ['add', None], ['del', '1'], ['add', None], ['upd', 1, 'x', None], ['upd', '1', None, 'y'], ['upd', 7, 'a', 'b']]},
         {'ops': [['add', '00'], ['add', None], ['del', '00'], ['add', None]]}]


def gen(rng):
    ops = []
    for _ in range(rng.randint(2, 14)):
        k = rng.choice(['add', 'add', 'add', 'del', 'upd'])
        i = rng.choice(IDS) if rng.random() < .5 else rng.choice([0, 1, 2, '0', '1', '2'])
        if k == 'add':
            ops.append(['add', None if rng.random() < .5 else i])
        elif k == 'del':
            ops.append(['del', i])
        else:
            ops.append(['upd', i, rng.choice([None, 'nv']), rng.choice([None, 'nc'])])
    return {'ops': ops}


def nontrivial(case):
    return len(case['ops']) >= 3


def valid(case):
    return all(len(o) == {'add': 2, 'del': 2, 'upd': 4}.get(o[0] if o else '') for o in case['ops'])


def well_formed(i):
    return all(c in '-_.:0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ' for c in i)


def check(case):
    m = ReferenceManager()
    model = {}
    for n, op in enumerate(case['ops']):
        i = op[1]
        if op[0] == 'add':
            com = 'c%d' % n if n % 2 else None
            r = try_(lambda: m.add_reference('v%d' % n, comment=com, ref_id=i))
            if i is None:
                if r[0] != 'ok':
                    return '%r: %r' % (op, r)
                if r[1] in model:
                    return 'the automatic identifier %r is in use' % (r[1],)
                if r[1] not in m:
                    return 'the automatic identifier %r is not defined' % (r[1],)
                i = r[1]
            elif str(i) in model:
                if r != ('exc', 'ReferenceAlreadyExists'):
                    return '%r, defined: %r' % (op, r)
                i = None
            elif not well_formed(str(i)):
                if r != ('exc', 'ReferenceInvalidId'):
                    return '%r, malformed: %r' % (op, r)
                i = None
            elif r != ('ok', str(i)):
                return '%r: %r' % (op, r)
            if i is not None:
                model[str(i)] = {'value': 'v%d' % n}
                if com:
                    model[str(i)]['comment'] = com
        elif op[0] == 'del':
            r = try_(lambda: m.del_reference(i))
            if str(i) in model:
                if r[0] != 'ok':
                    return '%r: %r' % (op, r)
                del model[str(i)]
            elif r != ('exc', 'ReferenceNotDefined'):
                return '%r, undefined: %r' % (op, r)
        else:
            r = try_(lambda: m.update_reference(i, value=op[2], comment=op[3]))
            if str(i) in model:
                if r[0] != 'ok':
                    return '%r: %r' % (op, r)
                if op[2] is not None:
                    model[str(i)]['value'] = op[2]
                if op[3] is not None:
                    model[str(i)]['comment'] = op[3]
            elif r != ('exc', 'ReferenceNotDefined'):
                return '%r, undefined: %r' % (op, r)
        if {k: dict(v) for k, v in m.items()} != model or list(m) != list(model):
            return 'after %r the references are %s, not %s' % (op, dict(m), model)
        for j in range(6):
            if (j in m) != (str(j) in model) or (str(j) in m) != (str(j) in model):
                return 'after %r membership of %d' % (op, j)
            if str(j) in model and (m[j] != model[str(j)] or m[str(j)] != model[str(j)]):
                return 'after %r the reference %d is %r' % (op, j, m[j])
    return None
