from lgr.exceptions import LGRApiException, LGRApiInvalidParameter
from oracles.labels import *
import collections

RULE = ('random rule sets, actions and labels: test_label_eligible, compute_label_disposition (with and without invalid labels) and its summary, '
        'against the segmentation, the generated variants and the first firing action; non-trivial when some variant label is listed')
BOUND = 'up to 6 entries, 4 actions, labels of up to 8 code points'
FIXED = [{'rules': {'chars': [[[97], None, None], [[98], None, None]], 'vars': [[[97], [98], 'blocked', None, None], [[98], [97], 'allocatable', None, None]]},
          'actions': [], 'label': [97, 98]},
         {'rules': {'chars': [[[97], None, None], [[98], None, None]], 'vars': [[[97], [98], 'invalid', None, None], [[97], [97], 'invalid', None, None]]},
          'actions': [], 'label': [97, 97]},
         {'rules': {'chars': [[[97], None, None]], 'vars': []}, 'actions': [], 'label': [97] * 63},
         {'rules': {'chars': [[[97], None, None]], 'vars': []}, 'actions': [], 'label': [97] * 64}]


def gen(rng):
    r = gen_rules(rng, seqp=.25, pc=.1)
    return {'rules': r, 'actions': gen_actions(rng), 'label': gen_label(rng, r, .07, 3)}


def nontrivial(case):
    return bool(case['rules']['vars'])


def valid(case):
    return valid_rules(case['rules']) and len(case['label']) > 0 and valid_actions(case['actions'])


def reflexive(case, label, apply):
    """types and only flag of the label taken as itself"""
    rules = case['rules']
    types, only = set(), True
    for i in range(len(label)):
        for c in rules['chars']:
            if tuple(label[i:i + len(c[0])]) == tuple(c[0]) and ok_at(c[1], c[2], label, len(c[0]), i):
                is_v = False
                if apply:
                    for cp, v, t, w, n in rules['vars']:
                        if cp == c[0] and v == cp and ok_at(w, n, label, len(cp), i):
                            types.add(t)
                            is_v = True
                only = only and is_v
    return types, only and bool(types)


def check(case):
    l = build(case['rules'], case['actions'])
    label = tuple(case['label'])
    before = lgr_view(l)
    acts = case['actions']

    def elig(lab, is_variant):
        segs, bad = greedy(case['rules'], lab)
        if bad:
            return False, 'invalid', -1, True
        t, o = reflexive(case, lab, not is_variant)
        d, i = first_action(acts, lab, t, o)
        return d != 'invalid', d, i, False
    for isv in (False, True):
        r = l.test_label_eligible(label, is_variant=isv)
        e, d, i, b = elig(label, isv)
        if (bool(r[0]), r[3], r[4]) != (e, d, i):
            return 'test_label_eligible(is_variant=%s) answers %r, not %r' % (isv, (r[0], r[3], r[4]), (e, d, i))
        if e and (tuple(r[1]) != label or len(r[2])):
            return 'parts of an eligible label: %r' % (r[:3],)
    try:
        l.test_label_eligible(())
        return 'an empty label is not refused'
    except LGRApiInvalidParameter:
        pass
    if len(label) > 63:
        try:
            list(l.compute_label_disposition(label))
            return 'a label of %d code points is not refused' % len(label)
        except LGRApiInvalidParameter:
            return None
    gens = {}
    for lab, types, only in generated(case['rules'], label):
        gens.setdefault(lab, set()).add((types, only))
    if sum(map(len, gens.values())) > 400:
        return None
    for inc in (False, True):
        out = list(l.compute_label_disposition(list(label), include_invalid=inc))
        labs = [tuple(o[0]) for o in out]
        if len(set(labs)) != len(labs):
            return 'a label is listed twice: %s' % labs
        if not labs or labs[-1] != label:
            return 'the original label is not last: %s' % labs
        seen = set()
        for o in out:
            lab, disp, _, idx, types = tuple(o[0]), o[1], o[2], o[3], frozenset(o[4])
            if disp == 'invalid' and not inc and lab != label:
                return 'a label disposed invalid is listed: %s' % (lab,)
            e, d, i, b = elig(lab, lab != label)
            poss = set()
            for t, only in gens.get(lab, ()):
                if not e:
                    poss.add(('invalid', i, t))
                else:
                    x = first_action(acts, lab, t, only)
                    poss.add((x[0], x[1], t))
            if lab == label and (not gens.get(lab) or (not inc and any(p[0] == 'invalid' for p in poss))):
                poss.add((d, i, frozenset()))
            if (disp, idx, types) not in poss:
                return 'listed %s disposed %s by action %s with %s, not one of %s' % (lab, disp, idx, set(types), poss)
            seen.add(lab)
        for lab in gens:
            e = elig(lab, lab != label)[0]
            all_ok = e and all(first_action(acts, lab, t, o)[0] != 'invalid' for t, o in gens[lab])
            if lab not in seen and (inc or all_ok):
                return 'the variant label %s is missing' % (lab,)
        s, out2 = l.compute_label_disposition_summary(label, include_invalid=inc)
        if dict(s) != dict(collections.Counter(o[1] for o in out2)) or [o[0] for o in out2] != [o[0] for o in out]:
            return 'the summary %r does not count %r' % (s, out2)
        for with_ in ([label], labs[:1]):
            sub = [tuple(o[0]) for o in l.compute_label_disposition(label, include_invalid=inc, with_labels=with_)]
            if sub != [x for x in labs if x in with_ and x != label] + [label]:
                return 'restricted to %s: %s of %s' % (with_, sub, labs)
    l._unicode_database = None
    try:
        list(l.compute_label_disposition(label))
        return 'not refused without Unicode database'
    except LGRApiException:
        pass
    if lgr_view(l) != before:
        return 'the computation changed the rules'
    return None
