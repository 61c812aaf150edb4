from lgr.mixed_scripts_variant_filter import BaseMixedScriptsVariantFilter, MixedScriptsVariantFilter, get_permitted_scripts
from oracles.labels import *

RULE = ('random rule sets, labels and assignments of scripts to code points; the permitted and alternative scripts and the answers of both filters are '
        'compared with their definition; hiding mixed scripts only leaves labels out; non-trivial when the label has two scripts')
BOUND = 'up to 6 entries of up to 3 code points, 7 scripts'
SC = ['Latin', 'Han', 'Katakana', 'Hiragana', 'Hangul', 'Cyrillic', 'Common', 'Inherited']
FIXED = [{'rules': {'chars': [[[97], None, None], [[98], None, None]], 'vars': [[[97], [100], 'blocked', None, None], [[98], [101], 'blocked', None, None]]},
          'label': [97, 98], 'sc': [a, a, a, b, b, 6, 6]} for a in range(6) for b in range(6)]


class Db(object):
    def __init__(self, sc):
        self.sc = sc

    def get_script(self, cp, alpha4=False):
        return SC[self.sc[cp - 97]]

    def is_idna_valid_or_mapped(self, cp):
        return True


def gen(rng):
    r = gen_rules(rng, seqp=rng.choice([0, .3]), pc=0, pv=.6)
    few = rng.sample(range(8), rng.choice([1, 2, 3, 4]))
    return {'rules': r, 'label': gen_label(rng, r, .1, 3), 'sc': [rng.choice(few) for _ in range(7)]}


def nontrivial(case):
    return len({case['sc'][c - 97] for c in case['label']}) > 1


def valid(case):
    return valid_rules(case['rules']) and len(case['label']) > 0 and len(case['sc']) == 7 and all(0 <= s < 8 for s in case['sc']) \
        and all(97 <= c < 104 for c in case['label']) and all(97 <= c < 104 for x in case['rules']['chars'] for c in x[0]) \
        and all(97 <= c < 104 for x in case['rules']['vars'] for c in x[1])


def companions(s):
    s = set(s)
    out = set(s)
    if s & {'Katakana', 'Hiragana'}:
        out |= {'Han', 'Latin', 'Katakana', 'Hiragana'}
    if s & {'Hangul', 'Han'}:
        out |= {'Latin'}
    return out


def check(case):
    sc = {97 + i: SC[k] for i, k in enumerate(case['sc'])}
    label = tuple(case['label'])
    for s in list(sc.values()) + [None]:
        own = {s} if s else set(sc.values())
        got = get_permitted_scripts(set(own))
        if got != companions(own):
            return 'the permitted scripts of %s are %s' % (sorted(own), sorted(got))
    l = build(case['rules'])
    l._unicode_database = Db(case['sc'])
    f = MixedScriptsVariantFilter(label, l.repertoire, l._unicode_database)
    base = companions({sc[c] for c in label} - {'Common', 'Inherited'})
    if set(f.base_scripts) != base:
        return 'the permitted scripts of %s are %s, not %s' % (label, sorted(f.base_scripts), sorted(base))
    alt = None
    for i, c in enumerate(label):
        if not any(x[0][0] == c for x in case['rules']['chars']):
            continue
        here = {sc[y] for x, v, t, w, n in case['rules']['vars'] if label[i:i + len(x)] == tuple(x) for y in v} - {'Common', 'Inherited'}
        alt = here if alt is None else alt & here
    alt = (alt or set()) - base
    if set(f.other_scripts) != alt:
        return 'the alternative scripts of %s are %s, not %s' % (label, sorted(f.other_scripts), sorted(alt))
    for cp in [(c,) for c in sc] + [(c, d) for c in sc for d in sc] + [()]:
        if f.cp_in_base_scripts(cp) != all(sc[c] in base for c in cp) or f.cp_in_other_scripts(cp) != all(sc[c] in alt for c in cp):
            return 'the filter of %s answers wrongly for %s' % (label, cp)
        for s in SC:
            if f.cp_in_scripts(cp, {s}) != all(sc[c] == s for c in cp):
                return 'cp_in_scripts answers wrongly for %s' % (cp,)
            g = f.get_filter_for_other_script(s)
            if g.cp_in_base_scripts(cp) != all(sc[c] in companions({s}) for c in cp) or g.cp_in_other_scripts(cp):
                return 'the filter for %s answers wrongly for %s' % (s, cp)
    if len(generated(case['rules'], label)) > 300:
        return None
    try:
        every = {tuple(o[0]) for o in l.compute_label_disposition(label, include_invalid=True)}
        some = {tuple(o[0]) for o in l.compute_label_disposition(label, include_invalid=True, hide_mixed_script_variants=True)}
    except LGRException:
        return None
    if not some <= every or label not in some:
        return 'hiding mixed scripts adds labels to, or loses the label itself from, %s: %s' % (label, sorted(some ^ every))
    for v in some - {label}:
        allowed = base | alt | {sc[c] for c in label}
        for s in alt:
            allowed = allowed | companions({s})
        if not {sc[c] for c in v} <= allowed:
            return 'the variant %s of %s is in a script that is not permitted' % (v, label)
    if set(sc.values()) <= base and some != every:
        return 'a variant in permitted scripts is missing: %s' % sorted(every - some)
    return None
