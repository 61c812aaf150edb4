from lgr.core import LGR
from lgr.char import RangeChar
from lgr.utils import is_idna_valid_cp_or_sequence
from oracles.lib import *

RULE = ('random histories of add_cp, add_range, add_variant and del_cp with valid and invalid attributes, with and without force and a '
        'validating repertoire; the whole set of rules is compared before and after a refusal, the stored attributes after an acceptance; '
        'non-trivial when there are at least 2 steps')
BOUND = 'up to 8 steps over 8 code points, 3 references, 3 tags'
FIXED = [{'udb': 0, 'ops': [{'k': 'cp', 'cp': [97], 'when': 'w', 'not_when': 'n'}, {'k': 'cp', 'cp': [97], 'when': 'w', 'not_when': 'n', 'force': 1}]},
         {'udb': 0, 'ops': [{'k': 'cp', 'cp': [97], 'tag': ['t1', 't2', 't1']}, {'k': 'cp', 'cp': [97], 'tag': ['t1', 't2']},
                            {'k': 'cp', 'cp': [98], 'tag': ['t1']}, {'k': 'del', 'cp': [97]}]},
         {'udb': 0, 'ops': [{'k': 'cp', 'cp': [97], 'ref': ['0', '9']}, {'k': 'cp', 'cp': [97], 'ref': ['0', '9'], 'force': 1}]},
         {'udb': 0, 'ops': [{'k': 'range', 'cp': [97, 100], 'tag': ['t1']}, {'k': 'range', 'cp': [97, 100], 'tag': ['t1'], 'force': 1}]},
         {'udb': 0, 'ops': [{'k': 'range', 'cp': [97, 100], 'tag': ['t1']}, {'k': 'delrange', 'cp': [97, 100]}]},
         {'udb': 0, 'ops': [{'k': 'cp', 'cp': [98]}, {'k': 'var', 'cp': [98], 'var': [97, 99], 'val': [97, 98]},
                            {'k': 'var', 'cp': [98], 'var': [97, 99], 'val': [97, 98], 'override': 1}]},
         {'udb': 1, 'ops': [{'k': 'cp', 'cp': [0x41]}, {'k': 'range', 'cp': [0x5f, 0x62], 'force': 1}, {'k': 'cp', 'cp': [97, 0x41]}]}]
EXC = {'CharAlreadyExists', 'CharInvalidContextRule', 'NotInRepertoire', 'NotInLGR', 'CharInvalidIdnaProperty', 'RangeInvalidContextRule',
       'VariantInvalidContextRule', 'ReferenceNotDefined', 'DuplicateReference', 'LGRFormatException', 'VariantAlreadyExists',
       'RangeAlreadyExists', 'LGRApiInvalidParameter'}


def gen(rng):
    ops = []
    for _ in range(rng.randint(1, 8)):
        o = {'k': rng.choice(['cp', 'cp', 'cp', 'range', 'range', 'var', 'var', 'del', 'delrange'])}
        if o['k'] in ('range', 'delrange'):
            a = 97 + rng.randrange(6)
            o['cp'] = [a, a + rng.choice([0, 1, 2, 3])]
            if o['k'] == 'delrange':
                rs = [p['cp'] for p in ops if p['k'] == 'range' and p['cp'][0] < p['cp'][1]]
                if rs:
                    o['cp'] = rng.choice(rs)
                elif o['cp'][0] == o['cp'][1]:
                    o['cp'][1] += 1
        else:
            o['cp'] = seqs(rng, 5, 2)
        if o['k'] == 'var':
            o['var'] = seqs(rng, 5, 2)
            if rng.random() < .6:
                o['type'] = rng.choice(['blocked', 'allocatable'])
        if o['k'] in ('cp', 'range', 'var'):
            p = rng.choice([.1, .3])
            if rng.random() < p:
                o['when'] = rng.choice(['w1', 'w2'])
            if rng.random() < p:
                o['not_when'] = rng.choice(['n1', 'n2'])
            if rng.random() < p * 2:
                o['ref'] = [rng.choice(['0', '1', '1', '9'] if rng.random() < .3 else ['0', '1']) for _ in range(rng.randint(1, 2))]
            if o['k'] != 'var' and rng.random() < p * 2:
                o['tag'] = [rng.choice(['t1', 't2', 't3']) for _ in range(rng.randint(1, 3))]
            if rng.random() < .3:
                o['comment'] = 'c'
            if rng.random() < .2:
                o['val'] = [97 + i for i in range(8) if rng.random() < .7] or [97]
                if rng.random() < .4:
                    o['override'] = 1
            if rng.random() < .25:
                o['force'] = 1
        if o['k'] == 'cp' and len(o['cp']) > 1 and o.get('force'):
            o.pop('tag', None)
        ops.append(o)
    return {'udb': int(rng.random() < .2), 'ops': ops}


def nontrivial(case):
    return len(case['ops']) > 1


def valid(case):
    for o in case['ops']:
        if not o.get('cp') or (o['k'] == 'var' and not o.get('var')):
            return False
        if o['k'] in ('range', 'delrange') and not (len(o['cp']) == 2 and 90 <= o['cp'][0] <= o['cp'][1] < 200):
            return False
        if o['k'] == 'delrange' and o['cp'][0] == o['cp'][1]:
            return False
        if 'val' in o and not o['val'] or not all(c >= 60 for c in o['cp']):
            return False
        if o['k'] == 'cp' and len(o['cp']) > 1 and o.get('force') and o.get('tag'):
            return False
        if o['k'] not in ('cp', 'range', 'var', 'del', 'delrange') or not all(x for k in ('ref', 'tag') for x in o.get(k, [])):
            return False
        if any(o.get(k) == '' for k in ('when', 'not_when')):
            return False
    return True


def tags_of(lgr):
    return {k: set(c.codepoints) for k, c in lgr.get_tag_classes().items() if c.codepoints}


def check(case):
    lgr = LGR()
    if case['udb']:
        lgr.unicode_database = unidb()
    lgr.add_reference('v0', ref_id='0')
    lgr.add_reference('v1', ref_id='1')
    tags = {}
    types = set()
    for op in case['ops']:
        before = lgr_view(lgr)
        k = op['k']
        force = bool(op.get('force'))
        kw = {x: op[x] for x in ('when', 'not_when', 'comment') if x in op}
        for x in ('ref', 'tag'):
            if x in op:
                kw[x] = list(op[x])
        val = None
        if 'val' in op:
            val = LGR()
            for c in sorted(set(op['val'])):
                val.add_cp(c)
            kw['validating_repertoire'] = val
        if k in ('cp', 'range', 'var'):
            kw['override_repertoire'] = bool(op.get('override'))
            kw['force'] = force
        invalid = set()
        if lgr.unicode_database is not None:
            cps = range(op['cp'][0], op['cp'][1] + 1) if k == 'range' else op['cp'] + op.get('var', [])
            invalid = {c for c in cps if not is_idna_valid_cp_or_sequence([c], lgr.unicode_database)[0]}
        reasons = set()
        if op.get('when') and op.get('not_when') and not force:
            reasons.add('both conditions')
        refs = op.get('ref', [])
        good = [r for r in refs if r in ('0', '1')]
        if not force and good != refs:
            reasons.add('undefined reference')
        if not force and len(set(good)) < len(good):
            reasons.add('repeated reference')
        tg = op.get('tag', [])
        if not force and len(set(tg)) < len(tg):
            reasons.add('repeated tag')
        if k == 'cp' and tg and len(op['cp']) > 1 and not force:
            reasons.add('tag on a sequence')
        target = op.get('var', []) if k == 'var' else op['cp']
        present = {tuple(c.cp) for c in lgr.repertoire.all_repertoire()}
        new = []
        if k == 'range':
            for c in range(op['cp'][0], op['cp'][1] + 1):
                if c in invalid:
                    if not force:
                        reasons.add('not IDNA valid')
                elif val is not None and c not in op['val'] and not op.get('override') and not force:
                    reasons.add('outside the repertoire')
                elif (c,) in present:
                    if not force:
                        reasons.add('present')
                else:
                    new.append(c)
        else:
            if invalid and k in ('cp', 'var', 'del'):
                reasons.add('not IDNA valid')
            if k in ('cp', 'var') and val is not None and not force and not op.get('override') and any(c not in op['val'] for c in target):
                reasons.add('outside the repertoire')
            if k == 'cp' and tuple(op['cp']) in present:
                reasons.add('present')
            if k in ('var', 'del') and tuple(op['cp']) not in present:
                reasons.add('absent')
            if k == 'var' and tuple(op['cp']) in present:
                ch = lgr.repertoire.get_char(op['cp'])
                if isinstance(ch, RangeChar):
                    reasons.add('range member')
                if any(tuple(v.cp) == tuple(op['var']) and v.when == op.get('when') and v.not_when == op.get('not_when') for v in ch.get_variants()):
                    reasons.add('present')
        try:
            if k == 'cp':
                lgr.add_cp(op['cp'], **kw)
            elif k == 'range':
                lgr.add_range(op['cp'][0], op['cp'][1], **kw)
            elif k == 'var':
                lgr.add_variant(op['cp'], op['var'], variant_type=op.get('type'), **kw)
            elif k == 'del':
                lgr.del_cp(op['cp'])
            else:
                lgr.del_range(op['cp'][0], op['cp'][1])
            ok = True
        except LGRException as e:
            ok = False
            if type(e).__name__ not in EXC:
                return '%r refused with %s' % (op, type(e).__name__)
        if k == 'delrange':
            if not ok:
                if lgr_view(lgr) != before:
                    return '%r: refused, yet the rules changed' % (op,)
            else:
                gone = present - {tuple(c.cp) for c in lgr.repertoire.all_repertoire()}
                for t in tags:
                    tags[t] -= {c[0] for c in gone}
        elif ok and reasons:
            return '%r accepted although: %s' % (op, ', '.join(sorted(reasons)))
        elif not ok and not reasons:
            return '%r refused without a reason' % (op,)
        elif not ok:
            if lgr_view(lgr) != before:
                return '%r: refused, yet the rules changed' % (op,)
        else:
            now = {tuple(c.cp) for c in lgr.repertoire.all_repertoire()}
            if k in ('cp', 'range'):
                want = {tuple(op['cp'])} if k == 'cp' else {(c,) for c in new}
                if now != present | want:
                    return '%r: the entries are now %s' % (op, sorted(now))
                for cp in want:
                    c = lgr.repertoire.get_char(cp)
                    g = (c.comment, list(c.references), list(c.tags), c.when, c.not_when, list(c.get_variants()))
                    w = (op.get('comment'), good, tg, op.get('when'), op.get('not_when'), [])
                    if g != w:
                        return '%r stores %r, not %r' % (op, g, w)
                    for t in tg:
                        tags.setdefault(t, set()).update(cp)
            elif k == 'var':
                v = [x for x in lgr.repertoire.get_char(op['cp']).get_variants()
                     if tuple(x.cp) == tuple(op['var']) and x.when == op.get('when') and x.not_when == op.get('not_when')]
                if len(v) != 1 or (v[0].type, v[0].comment, list(v[0].references)) != (op.get('type'), op.get('comment'), good):
                    return '%r stores %r' % (op, [vars(x) for x in v])
                types.add(op.get('type'))
            else:
                if now != present - {tuple(op['cp'])}:
                    return '%r: the entries are now %s' % (op, sorted(now))
                for t in tags:
                    if len(op['cp']) == 1:
                        tags[t] -= set(op['cp'])
            # entries that were there before and after keep everything
            old = {tuple(e['cp']): e for e in before['rep']}
            for e in lgr_view(lgr)['rep']:
                cp = tuple(e['cp'])
                if cp in old and old[cp] != e and not (k == 'var' and cp == tuple(op['cp'])):
                    return '%r changed the entry of %s' % (op, cp)
        if lgr.types != types:
            return 'after %r the variant types are %s, not %s' % (op, lgr.types, types)
        if tags_of(lgr) != {t: s for t, s in tags.items() if s}:
            return 'after %r the tag classes are %s, not %s' % (op, tags_of(lgr), tags)
    return None


def lgr_tag(view, c, t):
    return any(e['cp'] == [c] and t in e['tag'] for e in view['rep'])
