"""Rewrite the 'fixed' entries of known_findings.json from the fix commits of /repo (development tool; not run by the checks)."""
import json
import subprocess
PROPS = {
 'a range whose code points are accepted by override is refused as a whole if some exist': ('C05', 'add_range with override or force inserted part of a range and then refused it when a code point outside the validating repertoire existed already'),
 'alternative scripts of a label with code points that occur in sequences only': ('C24', 'MixedScriptsVariantFilter compared the entries after a code point that is in sequences only with the wrong rest of the label and lost their scripts'),
 'a range that encloses an existing range overlaps it': None, 'a refused range leaves no code point behind': None,
 'a refused range deletion deletes nothing': None, 'collapsing no code point gives no range': None,
 'a reference identifier does not end with a newline': None, 'deleting a range withdraws its code points from the classes of their tags': None,
 'the context of an index variant is what follows the code points it replaces': None,
 'the checks run depend on the options of this validation only': ('C25', 'validate_lgr removed checks from the shared CHECKS list, so that later validations lacked them'),
 'a non-standard disposition does not prevent the data checks': ('C25', 'an action with a non-standard disposition stopped the remaining checks of the data'),
 'the transitivity check reports a variant that is not in the repertoire': ('C12', 'check_transitivity raised NotInLGR for a variant outside the repertoire'),
 'a document without metadata can be read': ('C17', 'parsing a document with no meta element raised an error'),
 'an empty description can be read': ('C17', 'a description element without text could not be read'),
 'a description that contains the end of a CDATA section can be written': ('C17', 'a description that contains ]]> was not written as it is'),
 'the union keeps the variants of code points only the first rules have': ('C18', 'the union lost the variants of code points only the first rule set has'),
 'the scopes of both sides are compared': ('C18', 'the scopes of only one side were looked at'),
 'the union keeps the version and the description only the second rules have': ('C18', 'the union lost the version/description only the second rule set has'),
 'a condition both rules put on a code point is kept by their union and intersection': ('C18', 'a when/not-when condition both sides have was lost'),
 'the intersection keeps what both rules say of a variant': ('C18', 'the intersection lost the type and conditions of a variant both sides have'),
 'renaming a rule or a class changes its name only': ('C18', 'renaming replaced the name everywhere in the text of the rule'),
 'the intersection keeps the order of the actions': ('C18', 'the intersection listed actions in an arbitrary order'),
 'a pair of colliding labels is reported once': ('C19', 'with three colliding labels dump_collisions reported permuted duplicates'),
 'the annotation tells that the first action refused the label': ('C09', 'the annotation of a label refused by the first action did not name the action'),
 'a label is told to collide with the set labels only if it does itself': ('C19', 'lgr_set_annotate told that every label collides when set labels collide among themselves'),
 'conditions of different kinds are different, not missing': ('C21', 'a table whose variant has a when condition where the reference has a not-when condition (or the other way) was told to miss the rule'),
 'code points reported in a variant set are not additional': ('C21', 'every code point outside the reference was listed as additional, those of variant sets included'),
 'a sequence the reference does not contain is not missing from the table': ('C21', 'the review of variant sets raised NotInLGR when a variant of the reference is a sequence outside its repertoire'),
 'merging a set of rule sets leaves the set and its members as they are': ('C22', 'merge_lgr_set sorted the list it was given and expanded the ranges of its members'),
 'references of a code point already merged from another rule set are mapped to their merged identifiers': ('C22', 'a code point of two members got the references of the second one under their identifiers there'),
 'merging rule sets of the same script does not reuse the reference mapping of the previous one': ('C22', 'a second member of the same script had its references renamed as those of the first'),
 'merging does not fail on variants added for transitivity that are already defined': ('C22', 'merging raised VariantAlreadyExists when two members share two code points that are variants of each other and of different code points'),
 'renaming the rule of a merged action only changes its match or not-match attribute': ('C22', 'an action whose rule has a name that is part of another word of its text was garbled or lost'),
 'skip the variants of a line whose code point is invalid (text tables)': ('C23', 'the variants of a line with an invalid code point were given to the code point of the previous line (UnboundLocalError on a first line)'),
 'RFC4290 code points with too many digits or above U+10FFFF are errors': ('C23', 'U+0000061 was read as U+0000 and U+110000 was accepted'),
 'RFC3743 code points outside the notation are errors': ('C23', '00000061 was read as U+0000, faulty variants and references were dropped without error, 0061U+0062 was read as one number, a blank before ; or ( was an error'),
 'line table code points outside the notation are errors': ('C23', 'U+1234567 was read as U+123456 and faulty code points of a sequence were dropped'),
 'references with the same value are listed once when merging': ('C22', 'merging raised DuplicateReference when two references of an entry have the same value'),
 'variant sets that share their lowest member are all reviewed': ('C21', 'the review of a table whose variants do not map back left out variant sets that share their lowest member with another one'),
}
MORE = 'tools/more_fixes.json'
import os
if os.path.exists(MORE):
    PROPS.update({k: tuple(v) for k, v in json.load(open(MORE)).items()})
d = json.load(open('known_findings.json'))
have = {e['commit'] for e in d if e.get('status') == 'fixed'}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE).stdout.decode().splitlines()
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: ') or h in have:
        continue
    p = PROPS.get(s[5:])
    if p is None:
        print('unknown', l)
        continue
    d.append({'property': p[0], 'id': '%s-%s' % (p[0], h), 'status': 'fixed', 'commit': h, 'what': p[1],
              'entry': 'fixed: property=%s %s %s' % (p[0], h, p[1])})
json.dump(d, open('known_findings.json', 'w'), indent=1)
print(len(d))
