from lgr.char import Char
from lgr.tools.idn_review.repertoire import generate_repertoire_report
from lgr.tools.idn_review.variant_sets import generate_variant_sets_report
from lgr.tools.idn_review.actions import generate_actions_report
from lgr.tools.idn_review.classes import ClassReport
from lgr.tools.idn_review.whole_label_evaluation_rules import WholeLabelEvaluationRuleReport
from lgr.tools.idn_review.utils import IdnReviewResult
from oracles.labels import *

RULE = ('pairs of random tables (code points with conditions and tags, variants, actions) and of random class members; the reports list every code point, variant, '
        'and action of either side once, with the verdict of the decision table, read independently; non-trivial when the tables share a code point and a variant')
BOUND = 'up to 6 entries of up to 3 code points, 4 actions and 5 class members on each side'
TAGS = ['t1', 't2', 'sc:Latn']
FIXED = []


def side(rng, base=None):
    r = gen_rules(rng, seqp=.2, pc=rng.choice([.1, .25]), pv=.5)
    if base:   # shares entries and variants with the other side, changed here and there
        r = {'chars': [c if rng.random() < .6 else [c[0]] + list(cond(rng, .2)) for c in base['chars'] if rng.random() < .85], 'vars': []}
        cs = [tuple(c[0]) for c in r['chars']]
        seen = set()
        for v in base['vars']:
            if tuple(v[0]) in cs and rng.random() < .85:
                w = list(v) if rng.random() < .5 else [v[0], v[1], rng.choice(['blocked', 'allocatable', 'activated', 'x'])] + list(cond(rng, .3))
                k = (tuple(w[0]), tuple(w[1]), w[3], w[4])
                if k not in seen:
                    seen.add(k)
                    r['vars'].append(w)
    # most variants map back
    ks = {(tuple(v[0]), tuple(v[1]), v[3], v[4]) for v in r['vars']}
    cs = [tuple(c[0]) for c in r['chars']]
    for v in list(r['vars']):
        k = (tuple(v[1]), tuple(v[0]), v[3], v[4])
        if k not in ks and tuple(v[1]) in cs and rng.random() < .8:
            ks.add(k)
            r['vars'].append([v[1], v[0], v[2], v[3], v[4]])
    r['tags'] = [[rng.choice(TAGS) for _ in range(1)] if len(c[0]) == 1 and rng.random() < .4 else [] for c in r['chars']]
    return r


def gen(rng):
    a = side(rng)
    b = side(rng, a if rng.random() < .8 else None)
    acts = [[rng.choice(['blocked', 'allocatable', 'valid']), rng.choice([None, 'x', 'activated']), rng.choice([None, 'c1', 'c2'])] for _ in range(4)]
    return {'a': a, 'b': b, 'acts': [rng.sample(acts, rng.randint(0, 4)), rng.sample(acts, rng.randint(0, 4))],
            'cls': [sorted(rng.sample(range(97, 103), rng.randint(0, 5))) for _ in range(4)], 'same': rng.random() < .3}


def tagged(rules):
    l = LGR()
    for n in RULES:
        l.rules_lookup[n] = FakeRule(n)
        l.rules.append(n)
    for (cp, w, n), t in zip(rules['chars'], rules['tags']):
        l.add_cp(cp, when=w, not_when=n, tag=list(t))
    for cp, v, t, w, n in rules['vars']:
        l.add_variant(cp, v, variant_type=t, when=w, not_when=n)
    l._unicode_database = unidb()
    return l


def valid(case):
    return all(valid_rules(case[s]) and len(case[s]['tags']) == len(case[s]['chars']) and all(not t or len(c[0]) == 1 for c, t in zip(case[s]['chars'], case[s]['tags']))
               for s in 'ab') and len(case['cls']) == 4 and len(case['acts']) == 2


def nontrivial(case):
    a, b = case['a'], case['b']
    return bool({tuple(c[0]) for c in a['chars']} & {tuple(c[0]) for c in b['chars']} and {(tuple(v[0]), tuple(v[1])) for v in a['vars']} & {(tuple(v[0]), tuple(v[1])) for v in b['vars']})


def char_verdict(a, b):
    """a, b: (condition, tags) of the entry in the table and in the reference, or None"""
    if a is None:
        return 'SUBSET'
    if b is None:
        return 'MANUAL CHECK'
    ta = {t for t in a[1] if not t.startswith('sc:')}
    tb = {t for t in b[1] if not t.startswith('sc:')}
    if tb - ta or (a[0] != b[0] and b[0] is not None):
        return 'REVIEW'
    if ta - tb or a[0] != b[0]:
        return 'NOTE'
    return 'MATCH'


def class_verdict(i, r, ir, rr):
    if i == r:
        return 'MATCH'
    if not i or not r:
        return 'MANUAL CHECK'
    if (i - r) & rr or (r - i) & ir:
        return 'REVIEW'
    return 'MANUAL CHECK' if i - r else 'SUBSET'


ORDER = ['activated', 'optionally-activated', 'allocatable', 'optionally-allocatable', 'blocked']


def var_verdict(i, f, in_rep, no_idn, no_ref):
    """i, f: the variants [type, when, not_when] of one mapping; None when the answer depends on which of them is looked at"""
    if no_idn:
        return 'REVIEW'
    if no_ref:
        return 'MANUAL CHECK'
    if not i:
        return 'REVIEW' if in_rep else 'NOTE'
    if not f:
        return 'MANUAL CHECK'
    if len(i) > 1 or len(f) > 1:
        return None
    (ti, wi, ni), (tf, wf, nf) = i[0], f[0]
    ki, kf = (('w', wi) if wi else ('n', ni) if ni else None), (('w', wf) if wf else ('n', nf) if nf else None)
    rules = 'MATCH' if ki == kf else 'LESS' if kf is None else 'MISSING' if ki is None else 'DIFFERENT'
    same_kind = (ki and ki[0]) == (kf and kf[0])
    if same_kind and ti == tf:
        types = 'MATCH'
    elif not same_kind:
        types = None
    elif ti not in ORDER or tf not in ORDER:
        types = 'UNKNOWN'
    else:
        types = 'LESS' if ORDER.index(ti) < ORDER.index(tf) else 'MORE'
    if rules == 'LESS' or types in ('LESS', 'UNKNOWN'):
        return 'REVIEW'
    if rules != 'MATCH':
        return 'MANUAL CHECK'
    return 'NOTE' if types == 'MORE' else 'MATCH'


def check(case):
    a, b = tagged(case['a']), tagged(case['b'])
    if case['same']:
        b = tagged(case['a'])
        case = dict(case, b=case['a'])
    view = {}
    for s, l in (('a', a), ('b', b)):
        view[s] = {tuple(c[0]): (('w', c[1]) if c[1] else ('n', c[2]) if c[2] else None, t) for c, t in zip(case[s]['chars'], case[s]['tags'])}
    rep = generate_repertoire_report(a, b)
    got = [(tuple(r['cp']), r['result'], r['idn_table'], r['reference_lgr']) for r in rep['reports']]
    want = [(c, char_verdict(view['a'].get(c), view['b'].get(c)), c in view['a'], c in view['b']) for c in sorted(set(view['a']) | set(view['b']))]
    if got != want:
        return 'the code point report is %s, the decision table gives %s' % (got, want)
    want = [(x, c) for c in sorted(view['b']) for x in c if len(c) > 1 and (x,) not in view['b'] and (x,) in view['a']]
    got = [(r['idn_cp'][0], r['ref_cp']) for r in rep['cp_in_sequences']]
    if sorted(got) != sorted(want):
        return 'code points of the table that the reference has in sequences: %s, expected %s' % (got, want)
    # classes
    i, r, ir, rr = [set(x) for x in case['cls']]
    if case['same']:
        r = set(i)
    d = ClassReport('c', set(i), set(r), set(ir), set(rr)).to_dict()
    if not i and not r & ir:
        if d != {}:
            return 'a class for code points the table does not have is reported'
    elif d['result'] != class_verdict(i, r, ir, rr) or len(d['idn_members']) != len(i) or len(d['ref_members']) != len(r):
        return 'classes %s and %s (repertoires %s, %s) give %s, the decision table %s' % (i, r, ir, rr, d['result'], class_verdict(i, r, ir, rr))
    # contexts of rules
    for x, y in ((FakeRule('r'), None), (None, FakeRule('r'))):
        w = WholeLabelEvaluationRuleReport(a, x, y, {(c,) for c in i}, {(c,) for c in r})
        m = r and not {(c,) for c in r} & {tuple(k) for k in view['a']}
        if w.compare_wle()[0].name != ('SUBSET' if x is None and m else 'MANUAL CHECK'):
            return 'a rule only one side has gives %s' % w.compare_wle()[0].name
    f = FakeRule('r')
    w = WholeLabelEvaluationRuleReport(a, f, f, {(c,) for c in i}, {(c,) for c in r}).compare_wle()[0].name
    if w != ('MATCH' if i == r else 'MANUAL CHECK'):
        return 'the same rule with contexts %s and %s gives %s' % (i, r, w)
    # actions
    acts = []
    for l, xs in ((a, case['acts'][0]), (b, case['acts'][0] if case['same'] else case['acts'][1])):
        for disp, av, com in xs:
            kw = {'disp': disp, 'comment': com}
            if av:
                kw['any_variant'] = [av]
            l.add_action(Action(**kw))
        acts.append(l.actions)
    rep = generate_actions_report(a, b)['comparison']
    common = [x for x in acts[0] if x in acts[1]]
    want = ['MATCH' if x in acts[1] else 'MANUAL CHECK' for x in acts[0]] + ['MANUAL CHECK' for x in acts[1] if x not in acts[0]]
    got = [x['result'] for x in rep]
    if got != want or [x['idn_table'] for x in rep] != [True] * len(acts[0]) + [False] * (len(want) - len(acts[0])) or \
            [x['reference_lgr'] for x in rep] != [x in acts[1] for x in acts[0]] + [True] * (len(want) - len(acts[0])):
        return 'the action report is %s, expected %s' % (got, want)
    # variants
    try:
        rep = generate_variant_sets_report(a, b)
    except Exception as e:
        if known(e):
            return None
        raise
    pairs = {s: {} for s in 'ab'}
    for s in 'ab':
        for c, v, t, w, n in case[s]['vars']:
            pairs[s].setdefault((tuple(c), tuple(v)), []).append([t, w, n])
    seen = {}
    for r in rep['reports']:
        for x in r['report']:
            k = (tuple(x['source_cp']), tuple(x['dest_cp']))
            seen[k] = x
            i, f = pairs['a'].get(k, []), pairs['b'].get(k, [])
            back = (k[1], k[0])
            in_rep = k[0] in view['a'] and k[1] in view['a']
            no_idn, no_ref = not r['idn_table'], not r['ref_lgr']
            if case['same']:
                e = var_verdict(i, f, in_rep, no_idn, no_ref)
                if e is not None and x['result_fwd'] != e:
                    return 'variant %s of equal tables gives %s' % (k, x['result_fwd'])
            elif i and f and (back in pairs['a']) == (back in pairs['b']):
                e = var_verdict(i, f, True, no_idn, no_ref)
                if e is not None and x['result_fwd'] != e:
                    return 'variant %s %s against %s gives %s, the decision table %s' % (k, i, f, x['result_fwd'], e)
            elif i and not f and x['result_fwd'] != ('REVIEW' if no_idn else 'MANUAL CHECK') and back not in pairs['b']:
                return 'variant %s of the table only gives %s' % (k, x['result_fwd'])
            elif f and not i and back not in pairs['a'] and not no_idn and not no_ref and back in pairs['b'] and x['result_fwd'] != ('REVIEW' if in_rep else 'NOTE'):
                return 'variant %s of the reference only gives %s' % (k, x['result_fwd'])
    for s in 'ab':
        for k in pairs[s]:
            if k[0] != k[1] and k[0] in view['a'] and k not in seen and (k[1], k[0]) not in seen:
                return 'variant %s of side %s is not reported' % (k, s)
    sets = {c for r in rep['reports'] for c in r['idn_table']}
    want = sorted(c for c in view['a'] if c not in view['b'] and not any(c in k for k in pairs['a'] if k[0] != k[1]))
    got = sorted(tuple(x['cp']) for x in rep['additional'])
    if got != want:
        return 'additional code points %s, expected %s' % (got, want)


def known(e):
    return False
